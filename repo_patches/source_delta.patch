From 43523668deca904ce99d45ccfe4546bef9e0be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 01/69] fix: constrain limbs.Split outputs to their declared
 sizes

The hint outputs were only constrained through their weighted sum, so a
prover could choose limbs outside their size (or a word outside its size).
---
 circuits/gadgets/limbs/limbapi.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5dd8357..b7f88a7 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -97,6 +97,13 @@ func (wa *API) Split(l Limb, newLimbSize int, nbLimbsOpt ...int) Limbs {
 		ret = append(ret, Limb{Val: out[len(out)-1], Size: remSize})
 	}
 	wa.api.AssertIsEqual(acc, l.Val)
+	// the sum alone leaves the prover free to choose the limbs, so tie each of them to its bits of the word
+	bits := wa.api.ToBinary(l.Val, l.Size)
+	end := l.Size
+	for _, limb := range ret {
+		wa.api.AssertIsEqual(limb.Val, wa.api.FromBinary(bits[end-limb.Size:end]...))
+		end -= limb.Size
+	}
 	return ret
 }
 
-- 
2.43.0


From 6bbfb6c8aca06deb0c74f665c0fca0ecbcdbd11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 02/69] fix: limbs.Resplit for a single limb, a field-wide
 total and a remainder

A single limb was returned unsplit, limbs totalling exactly the field's bit
length were merged into a value that can wrap, and a total that is not a
multiple of the new size read past the bits.
---
 circuits/gadgets/limbs/limbapi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index b7f88a7..e32c4ce 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -132,15 +132,15 @@ func (wa *API) Merge(ws Limbs) Limb {
 
 // Resplit resplits limbs into new limb sizes
 func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
-	if len(ws) == 1 {
+	if len(ws) == 1 && ws[0].Size <= newLimbSize {
 		return ws
 	}
 	totalSize := ws.TotalSize()
 	f := wa.api.Compiler().FieldBitLen()
-	if totalSize <= f {
+	if totalSize < f {
 		return wa.Split(wa.Merge(ws), newLimbSize)
 	}
-	// if the total limb size is greater than the field size, we cannot merge all the limbs together then
+	// if the total limb size reaches the field size, we cannot merge all the limbs together then
 	// split. in this case, we split all limbs into 1-bit limbs then merge them to `newLimbSize` limbs
 	var bits Limbs
 	for _, w := range ws {
@@ -148,7 +148,7 @@ func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	}
 	var ret Limbs
 	for i := 0; i < totalSize; i += newLimbSize {
-		ret = append(ret, wa.Merge(bits[i:i+newLimbSize]))
+		ret = append(ret, wa.Merge(bits[i:min(i+newLimbSize, totalSize)]))
 	}
 	return ret
 }
-- 
2.43.0


From d435a4bf3cb51b85e8da2f262b555f4eab0bba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 03/69] fix: ToElement misplaced limbs when the input is not a
 multiple of the limb width

---
 circuits/gadgets/emulated/element.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/emulated/element.go b/circuits/gadgets/emulated/element.go
index a5048a6..76f9f52 100644
--- a/circuits/gadgets/emulated/element.go
+++ b/circuits/gadgets/emulated/element.go
@@ -21,6 +21,10 @@ func ToElement[T emulated.FieldParams](api frontend.API, in []frontend.Variable,
 	var p T
 	la := limbs.NewAPI(api)
 	ls := limbs.NewLimbs(in, inBitSize)
+	if rem := ls.TotalSize() % int(p.BitsPerLimb()); rem != 0 {
+		// limbs are cut from the most significant end: pad so that the cuts fall on limb boundaries
+		ls = append(limbs.Limbs{{Val: 0, Size: int(p.BitsPerLimb()) - rem}}, ls...)
+	}
 	elLimbs := la.Resplit(ls, int(p.BitsPerLimb()))
 	elLimbs = utils.Flip(elLimbs)
 	f, err := emulated.NewField[T](api)
-- 
2.43.0


From 19bc94edbcf4d665f49eb632fb54c67d3d0ee6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 04/69] fix: ToElements dropped input bits that do not fill
 whole limbs or elements

---
 circuits/gadgets/emulated/element.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/emulated/element.go b/circuits/gadgets/emulated/element.go
index 76f9f52..e8af84a 100644
--- a/circuits/gadgets/emulated/element.go
+++ b/circuits/gadgets/emulated/element.go
@@ -38,6 +38,9 @@ func ToElements[T emulated.FieldParams](api frontend.API, in []frontend.Variable
 	var p T
 	s := inBitSize
 	inBits := len(in) * s
+	if int(p.BitsPerLimb())%s != 0 || inBits%int(p.BitsPerLimb()*p.NbLimbs()) != 0 {
+		panic(fmt.Errorf("%d inputs of %d bits do not fill whole elements of %d %d-bit limbs", len(in), s, p.NbLimbs(), p.BitsPerLimb()))
+	}
 	varsPerLimb := int(p.BitsPerLimb()) / s
 	la := limbs.NewAPI(api)
 	ls := limbs.NewLimbs(in, s)
-- 
2.43.0


From cc958fd78f6ec7687908cd165504f04148b68459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 05/69] fix: emulated MiMC Sum flushes the data it has hashed

A second Sum, or a Write after Sum, hashed the earlier data again, unlike
the native MiMC.
---
 circuits/gadgets/emulated/mimc/mimc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/emulated/mimc/mimc.go b/circuits/gadgets/emulated/mimc/mimc.go
index 470222c..6be4f5a 100644
--- a/circuits/gadgets/emulated/mimc/mimc.go
+++ b/circuits/gadgets/emulated/mimc/mimc.go
@@ -82,5 +82,6 @@ func (h *MiMC[Base]) Sum() *emulated.Element[Base] {
 		temp := h.fp.Add(h.h, r)
 		h.h = h.fp.Add(temp, stream)
 	}
+	h.data = nil // flush the data already hashed
 	return h.fp.Reduce(h.h)
 }
-- 
2.43.0


From 3f64dcef92588d469e5bd7db0da71bd9ff0cc97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 06/69] fix: trie inclusion of depth 1 did not link the leaf to
 the root

---
 circuits/gadgets/mpt/mpt.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5663ed5..cbb6ff8 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -223,7 +223,12 @@ func CheckMPTInclusionFixedKeyLength(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// the top of the path is the first node, or the last node itself when it is the only one
+	var topHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		topHash[i] = api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], topHash[:], 64, 64)
 	log.Debug(rootHashCheck, lastNodeCheckResult.result.output, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
@@ -433,7 +438,12 @@ func CheckMPTInclusionNoBranchTermination(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// the top of the path is the first node, or the leaf itself when it is the only one
+	var topHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		topHash[i] = api.Select(depthEqual[0], leafHash[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], topHash[:], 64, 64)
 	log.Debug("Inclusion Check:", rootHashCheck, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
-- 
2.43.0


From bef6abd977b34cc49a7457f469f36acaa0dfa12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 07/69] fix: trie inclusion could skip leading nibbles of the
 key

---
 circuits/gadgets/mpt/mpt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index cbb6ff8..a10c437 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -71,6 +71,8 @@ func CheckMPTInclusionFixedKeyLength(
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the path starts at the first nibble of the key
+	allFragmentsValid = api.And(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
@@ -310,6 +312,8 @@ func CheckMPTInclusionNoBranchTermination(
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the path starts at the first nibble of the key
+	allFragmentsValid = api.And(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
-- 
2.43.0


From 59cf745c6380526f75027fe5340a1fddc65a28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 08/69] fix: trie non-existence at a branch looked at the wrong
 key nibble below extensions

---
 circuits/gadgets/mpt/mpt.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index a10c437..9445e3d 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -4,7 +4,6 @@ import (
 	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
 	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
 	"github.com/brevis-network/zk-utils/common/utils"
-	"github.com/consensys/gnark/std/selector"
 
 	"github.com/celer-network/goutils/log"
 	"github.com/consensys/gnark/frontend"
@@ -100,12 +99,9 @@ func CheckMPTInclusionFixedKeyLength(
 	// 1. the node is last node
 	// 2. in case of the node is branch node or an extension node, but the key path is not matched
 	if isStorageProof {
-		lastNodeLayer := api.Sub(depth, 1)
-		lastNodeKeySelector := selector.Mux(api, lastNodeLayer, key[:]...)
-
-		// layer index start at 0, last node layer = depth -1
+		// the nibble the last node branches on is the first one not consumed above it
 		lastNodeBranchCheck := NewMPTBranchCheck(64)
-		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, lastNodeKeySelector, lastNodeRlp)
+		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, leafSelector[0], lastNodeRlp)
 		log.Infoln("lastNodeBranchNonExistence:", lastNodeBranchNonExistence)
 
 		lastNodeExtensionCheck := NewMPTExtensionCheck(keyLength, 64)
-- 
2.43.0


From 1fb400ea73a19e249835ed0208d90ce14dcdfbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 09/69] fix: trie non-existence at an extension held for keys
 the extension leads to

---
 circuits/gadgets/mpt/mpt_util.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index a3d3328..9b33ee3 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -231,12 +231,11 @@ func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 	keyPathsArr := rlp.ShiftLeft(api, ec.maxRLPLength, 0, 2, fields[0], nodeTypePrefixLength)
 
 	// check key path part
+	// the key leaves the trie here when the extension's path is not a prefix of the remaining key
 	keyNibblesMatched := rlp.ArrayEqual(api, keyNibbles, keyPathsArr, ec.maxKeyLength, api.Sub(fieldsLength[0], nodeTypePrefixLength))
-	keyNibblesLengthMatched := rlp.Equal(api, keyNibbleLen, api.Sub(fieldsLength[0], nodeTypePrefixLength))
+	keyNotExistInPath := api.Sub(1, keyNibblesMatched)
 
-	keyNotExistInPath := api.Sub(1, api.And(keyNibblesMatched, keyNibblesLengthMatched))
-
-	isNotExist := rlp.Equal(api, api.Add(prefixCheck, keyNotExistInPath), 2)
+	isNotExist := rlp.Equal(api, api.Add(rlpout, prefixCheck, keyNotExistInPath), 3)
 	return isNotExist
 
 }
-- 
2.43.0


From 744b37080da5a444c7474cd9fa17619b87371041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 10/69] fix: trie non-existence at a branch or extension
 accepted any claimed value

---
 circuits/gadgets/mpt/mpt.go      |  2 ++
 circuits/gadgets/mpt/mpt_util.go | 13 +++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 9445e3d..6c8883b 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -109,6 +109,8 @@ func CheckMPTInclusionFixedKeyLength(
 		log.Infoln("lastNodeExtensionNonExistence:", lastNodeExtensionNonExistence)
 
 		isNotExist := api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence)
+		// only the zero value may be claimed for a key that does not exist
+		isNotExist = api.And(isNotExist, isZeroValue(api, value))
 		lastNodeCheckResult.result.output = api.Select(isNotExist, 4, lastNodeCheckResult.result.output)
 
 	}
diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index 9b33ee3..6c665a5 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -51,6 +51,14 @@ func NewMPTLeafCheck(maxKeyLength int, maxValueLength int) MPTLeafCheck {
 	return *leafCheck
 }
 
+// isZeroValue tells whether the value nibbles are the RLP of the empty value (0x80), padded with zeros.
+func isZeroValue(api frontend.API, values []frontend.Variable) frontend.Variable {
+	valuePrefix := values[:2]
+	isSingleValue := rlp.ArrayEqual(api, valuePrefix[:], []frontend.Variable{8, 0}, 2, 2)
+	isZeroArr := rlp.ArrayEqual(api, values[2:], []frontend.Variable{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 64, 64)
+	return api.And(isSingleValue, isZeroArr)
+}
+
 //	Valid Leaf Case
 //	1. No-zero value: rlpout: 1, prefixCheck: 1, keyPass: 1, valueMatched: 1
 //
@@ -68,10 +76,7 @@ func (leafCheck *MPTLeafCheck) CheckLeaf(
 	api.AssertIsEqual(len(keyNibbles), leafCheck.maxKeyLength)
 	api.AssertIsEqual(len(values), leafCheck.maxValueLength)
 
-	valuePrefix := values[:2]
-	isSingleValue := rlp.ArrayEqual(api, valuePrefix[:], []frontend.Variable{8, 0}, 2, 2)
-	isZeroArr := rlp.ArrayEqual(api, values[2:], []frontend.Variable{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 64, 64)
-	isZeroValue := api.And(isSingleValue, isZeroArr)
+	isZeroValue := isZeroValue(api, values)
 
 	arrayCheck := &rlp.ArrayCheck{}
 	arrayCheck.MaxHexLen = leafCheck.maxRLPLength
-- 
2.43.0


From 1e1e591719e00df956df38e0bed3ba86cdbd72e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 11/69] fix: single-nibble rule applied to extensions instead
 of branches without branch termination

---
 circuits/gadgets/mpt/mpt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 6c8883b..13e8bcc 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -289,7 +289,7 @@ func CheckMPTInclusionNoBranchTermination(
 	for index := 0; index < maxDepth-1; index++ {
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
-		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], api.Sub(1, nodeTypes[index])))
+		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
 		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
 	}
 
-- 
2.43.0


From 9361198c431b9112eefd302db20db3250cb43d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 12/69] fix: trie inclusion without branch termination accepted
 a wrong root and no fully valid proof

---
 circuits/gadgets/mpt/mpt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 13e8bcc..82f5e74 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -473,7 +473,7 @@ func CheckMPTInclusionNoBranchTermination(
 	allCheckMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allCheckMultiplexerInput)
 
 	return CheckMPTInclusionFixedKeyLengthResult{
-		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 1)),
+		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 2)),
 		ValueLength: 0,
 	}
 }
-- 
2.43.0


From 69198c18d3fbac83e8cf5e9a66fd970ae5d500bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 13/69] fix: trie inclusion without branch termination rejected
 leaves with an empty key fragment

---
 circuits/gadgets/mpt/mpt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 82f5e74..801dfd8 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -286,14 +286,16 @@ func CheckMPTInclusionNoBranchTermination(
 	var isMonotoneStart []frontend.Variable        // [maxDepth - 1]
 	var isStartRange []frontend.Variable           // [maxDepth]
 
+	// a key that ends at a branch leaves an empty fragment, which starts right after its last nibble
+	maxStart := api.Add(keyLength, 1)
 	for index := 0; index < maxDepth-1; index++ {
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
 		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
-		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
+		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], maxStart))
 	}
 
-	isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[maxDepth-1], keyLength))
+	isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[maxDepth-1], maxStart))
 
 	var allFragmentsInput [][]frontend.Variable
 	var tmp frontend.Variable = 0
-- 
2.43.0


From 6d23703eebed60adad78c35a48c0b036bfc945ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 14/69] fix: RLP lists with an empty-list field passed with a
 wrong total length and failed with the right one

---
 circuits/gadgets/rlp/rlp.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index afa2884..b071c4b 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -259,10 +259,8 @@ func RlpFieldPrefix(api frontend.API, in [2]frontend.Variable) (frontend.Variabl
 	//	    prefixOrTotalHexLen <== (1 - isEmptyList) * lenTemp2;
 	prefixOrTotalHexLen := api.Mul(lenTemp2, api.Sub(1, isEmptyList))
 
-	//	    isValid <== lt1.out + isEmptyList - lt1.out * isEmptyList;
-
-	isValid := api.Add(lt1, isEmptyList)
-	isValid = api.Sub(isValid, api.Mul(lt1, isEmptyList))
+	// an empty list is an array, isArray covers it
+	isValid := lt1
 
 	prefixOrTotalHexLen = api.Add(api.Mul(isValid, prefixOrTotalHexLen), api.Mul(isArray, arrayHexLen))
 	isValid = api.Add(isValid, isArray)
@@ -474,7 +472,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, isEmptyList, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -517,7 +515,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Sub(lenSum, api.Mul(1, isEmptyList))
 		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
 
 		fieldHexLen = api.Add(fieldHexLen, keptArrayPrefixLen)
-- 
2.43.0


From 5b1785a4ef95eeefde187344c40e0015b322da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 15/69] fix: header check read padding after the last field as
 field prefixes

---
 circuits/gadgets/rlp/rlp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index b071c4b..b424057 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -703,6 +703,7 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 	var shiftToFieldRlpsOuts [][]frontend.Variable
 
 	for idx := 0; idx < a.MaxFields; idx++ {
+		idxLessThanMaxFields := LessThan(api, idx, FieldsNum)
 
 		if idx == 0 {
 			var shiftToFieldRlpsIn []frontend.Variable
@@ -730,6 +731,10 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 
 		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, _, _, _ := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
+		// what follows the last field is padding, not a field prefix
+		fieldPrefixIsLiteral = api.Or(fieldPrefixIsLiteral, api.Sub(1, idxLessThanMaxFields))
+		fieldPrefixIsBig = api.Mul(fieldPrefixIsBig, idxLessThanMaxFields)
+
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
 		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
@@ -761,7 +766,6 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 		temp2 := api.Sub(api.Mul(fieldHexLenMultiOut[0], 2), fieldPrefixPrefixOrTotalHexLen)
 		fieldTemp := api.Add(fieldPrefixPrefixOrTotalHexLen, api.Mul(fieldPrefixIsBig, temp2))
 
-		idxLessThanMaxFields := LessThan(api, idx, FieldsNum)
 		fieldHexLen := api.Add(fieldTemp, api.Mul(2, fieldPrefixIsLiteral))
 		fieldHexLen = api.Sub(fieldHexLen, api.Mul(fieldTemp, fieldPrefixIsLiteral))
 		fieldHexLen = api.Mul(fieldHexLen, idxLessThanMaxFields)
-- 
2.43.0


From 166bca82dee5022b5b375761ee59c6423a51ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 16/69] fix: RLP decoding accepted lists longer than the data

---
 circuits/gadgets/rlp/rlp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index b424057..80a2b44 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -524,6 +524,8 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
 
 	out = api.IsZero(api.Sub(api.Add(check, lenCheck), api.Add(a.MaxFields, 2)))
+	// a list longer than the data is no list
+	out = api.Mul(out, api.Sub(1, LessThan(api, a.MaxHexLen, totalRlpHexLen)))
 
 	return
 }
@@ -656,6 +658,8 @@ func (a *ArrayCheck) RlpArrayCheck(api frontend.API, in []frontend.Variable, num
 
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
 	out = api.IsZero(api.Sub(api.Add(check, lenCheck), api.Add(fieldNum, 2)))
+	// a list longer than the data is no list
+	out = api.Mul(out, api.Sub(1, LessThan(api, a.MaxHexLen, totalRlpHexLen)))
 
 	return
 }
@@ -781,6 +785,8 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
 
 	out = api.IsZero(api.Sub(api.Add(check, lenCheck), api.Add(a.MaxFields, 2)))
+	// a list longer than the data is no list
+	out = api.Mul(out, api.Sub(1, LessThan(api, a.MaxHexLen, totalRlpHexLen)))
 
 	return
 }
-- 
2.43.0


From b788a3e9883d8b781082bafb16c906a62f162d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 17/69] fix: RLP fields of 56 to 63 bytes were refused when the
 field limit was below 64 bytes

---
 circuits/gadgets/rlp/rlp.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 80a2b44..abc730c 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -477,6 +477,9 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
 		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
+		if lenPrefixMaxHexs == 0 && a.FieldMaxHexLen[idx] > 110 {
+			lenPrefixMaxHexs = 1 // strings of 56 bytes and more have a length byte
+		}
 		lenPrefixMaxHexs = (lenPrefixMaxHexs + 1) * 2
 		shlToFieldShift := api.Mul(fieldPrefixIsLiteral, api.Add(2, fieldRlpPrefix1HexLen))
 		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
@@ -613,6 +616,9 @@ func (a *ArrayCheck) RlpArrayCheck(api frontend.API, in []frontend.Variable, num
 		fieldRlpPrefix1HexLen = api.Mul(fieldRlpPrefix1HexLen, fieldIsValid)
 
 		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
+		if lenPrefixMaxHexs == 0 && a.FieldMaxHexLen[idx] > 110 {
+			lenPrefixMaxHexs = 1 // strings of 56 bytes and more have a length byte
+		}
 		lenPrefixMaxHexs = (lenPrefixMaxHexs + 1) * 2
 		shlToFieldShift := api.Mul(fieldPrefixIsLiteral, api.Add(2, fieldRlpPrefix1HexLen))
 		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
@@ -742,6 +748,9 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
 		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
+		if lenPrefixMaxHexs == 0 && a.FieldMaxHexLen[idx] > 110 {
+			lenPrefixMaxHexs = 1 // strings of 56 bytes and more have a length byte
+		}
 		lenPrefixMaxHexs = (lenPrefixMaxHexs + 1) * 2
 		shlToFieldShift := api.Mul(fieldPrefixIsLiteral, api.Add(2, fieldRlpPrefix1HexLen))
 		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
-- 
2.43.0


From 24e106f5bd5666171d146e6a56feb6caa9a089fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 18/69] fix: nested RLP decoding took a zero byte for a missing
 field

---
 circuits/gadgets/rlp/rlp.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index abc730c..dcfda8a 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -472,7 +472,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, _ := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -512,7 +512,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		fieldHexLen := api.Add(fieldTemp, api.Mul(2, fieldPrefixIsLiteral))
 		fieldHexLen = api.Sub(fieldHexLen, api.Mul(fieldTemp, fieldPrefixIsLiteral))
-		fieldHexLen = api.Mul(fieldHexLen, api.Sub(1, isZero))
 
 		check = api.Add(check, fieldPrefixIsValid)
 
-- 
2.43.0


From b4aec705441e02dcf562ae3d1e48df72b45833d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 19/69] fix: ShiftLeft ignored the requested shift when the
 range holds one value

---
 circuits/gadgets/rlp/rlp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index dcfda8a..8b9bb4d 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -288,6 +288,7 @@ func ShiftLeft(api frontend.API, nIn int, minShift int, maxShift int, in []front
 	var out []frontend.Variable
 
 	if minShift == maxShift {
+		api.AssertIsEqual(shift, minShift)
 		for i := 0; i < nIn; i++ {
 			out = append(out, in[(i+minShift)%nIn])
 		}
-- 
2.43.0


From 6369b3f62ac5254db63c5f7a364b75be137963f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 20/69] fix: Keccak padding overwrote the caller's bytes behind
 the message

---
 circuits/gadgets/keccak/periphery.go | 3 ++-
 common/circuits/keccak.go            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 65f53f5..287b04a 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -24,7 +24,8 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	// a full slice expression, so that append never writes into the caller's array
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
diff --git a/common/circuits/keccak.go b/common/circuits/keccak.go
index 5ebb751..3ad0147 100644
--- a/common/circuits/keccak.go
+++ b/common/circuits/keccak.go
@@ -9,7 +9,8 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	// a full slice expression, so that append never writes into the caller's array
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
-- 
2.43.0


From 8c04df628461000210c4da4a57e95dc7f590bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 21/69] fix: in-circuit Keccak padding added a block when one
 padding byte is missing

---
 circuits/gadgets/keccak/pad.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/keccak/pad.go b/circuits/gadgets/keccak/pad.go
index 57156e8..04eb516 100644
--- a/circuits/gadgets/keccak/pad.go
+++ b/circuits/gadgets/keccak/pad.go
@@ -75,7 +75,7 @@ func Pad101Bits(
 		}
 
 		actualLen := j
-		rounds := (actualLen+8)/1088 + 1
+		rounds := actualLen/1088 + 1
 
 		// insert the padding part
 		for ; j < actualLen+7; j++ {
@@ -83,11 +83,11 @@ func Pad101Bits(
 		}
 		padded[i][j] = 1
 		j++
-		for ; j < rounds*1088-8; j++ {
+		for ; j < rounds*1088; j++ {
 			padded[i][j] = 0
 		}
-		padded[i][j] = 1
-		j++
+		// the last byte is also the first padding byte when only one byte is missing
+		padded[i][rounds*1088-8] = 1
 
 		// populate the rest with dummy zeros
 		for ; j < outBitsLen; j++ {
-- 
2.43.0


From a47c4823fce77895aeaedef5fbea1bd7b7ae887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 22/69] fix: PadBits101 appended both padding bytes when one is
 missing

---
 circuits/gadgets/keccak/periphery.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 287b04a..9cb91e3 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -244,14 +244,14 @@ func NibblesToU64ArrayForMaxTransactionLeafValue(api frontend.API, nibbles []fro
 func PadBits101(api frontend.API, data []frontend.Variable, maxRound int) []frontend.Variable {
 	var padBits []frontend.Variable
 	padBits = append(padBits, data...)
-	var missedLen = 1088 - len(data)%1088
-	var zeroBitLen = missedLen - 8*2
+	// the two ones share the last byte when only one byte is missing
+	var zeroBitLen = (2*1088 - 2 - len(data)%1088) % 1088
 
-	padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
+	padBits = append(padBits, 1)
 	for i := 0; i < zeroBitLen; i++ {
 		padBits = append(padBits, 0) //00...0000
 	}
-	padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
+	padBits = append(padBits, 1)
 
 	padZeroLen := maxRound*1088 - len(padBits)
 
-- 
2.43.0


From 1ebb28c837711a7ae919daea335d439204093e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 23/69] fix: Keccak round index was one too high when one
 padding byte is missing

---
 circuits/gadgets/keccak/periphery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 9cb91e3..14930ab 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -38,7 +38,7 @@ func GetKeccakRoundForPaddedBytes(data []byte) int {
 }
 
 func GetRoundIndex(bitsLen int) int {
-	return (bitsLen + 8) / 1088
+	return bitsLen / 1088
 }
 
 func Bytes2BlockBits(bytes []byte) (bits []uint8) {
-- 
2.43.0


From 2e37c3ed20a3bb1ec4e50c740ba2947caf65157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 24/69] fix: one-block Keccak accepted any round index

---
 circuits/gadgets/keccak/keccak256_bits.go           | 1 +
 circuits/gadgets/keccak/keccak256_bits_optimized.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/circuits/gadgets/keccak/keccak256_bits.go b/circuits/gadgets/keccak/keccak256_bits.go
index 472a488..3ea569f 100644
--- a/circuits/gadgets/keccak/keccak256_bits.go
+++ b/circuits/gadgets/keccak/keccak256_bits.go
@@ -26,6 +26,7 @@ func Keccak256Bits(api frontend.API, maxRounds int, roundIndex frontend.Variable
 	}
 
 	if maxRounds == 1 {
+		api.AssertIsEqual(roundIndex, 0)
 		copy(out[:], states[1][:256])
 		return
 	}
diff --git a/circuits/gadgets/keccak/keccak256_bits_optimized.go b/circuits/gadgets/keccak/keccak256_bits_optimized.go
index 70f97ce..20b9059 100644
--- a/circuits/gadgets/keccak/keccak256_bits_optimized.go
+++ b/circuits/gadgets/keccak/keccak256_bits_optimized.go
@@ -25,6 +25,7 @@ func Keccak256BitsOptimized(api frontend.API, minRounds, maxRounds int, roundInd
 	}
 
 	if maxRounds == 1 {
+		api.AssertIsEqual(roundIndex, 0)
 		copy(out[:], states[1][:256])
 		return
 	}
-- 
2.43.0


From 5158ecab08c630e3aa400326198bf2b7d845ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 25/69] fix: composed account and storage check ignored whether
 the header is well-formed

---
 circuits/gadgets/mpt/eth_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/eth_proof.go b/circuits/gadgets/mpt/eth_proof.go
index ae0f05a..84e3480 100644
--- a/circuits/gadgets/mpt/eth_proof.go
+++ b/circuits/gadgets/mpt/eth_proof.go
@@ -333,6 +333,6 @@ func CheckEthAddressStorageProof(
 	return EthAddressStorageProofResult{
 		BlockNumber: blockNumber,
 		SlotValue:   storageProofResult.SlotValue,
-		Output:      rlp.Equal(api, api.Add(blockHashEqual, addressProofResult.Output, storageProofResult.Output), 3),
+		Output:      rlp.Equal(api, api.Add(blockHashEqual, rlpBlockHashResult.Output, addressProofResult.Output, storageProofResult.Output), 4),
 	}
 }
-- 
2.43.0


From 0794f06517d491d8931b9039a2968b186fa60659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 26/69] fix: composed account and storage check refused block
 number zero

---
 circuits/gadgets/mpt/eth_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/eth_proof.go b/circuits/gadgets/mpt/eth_proof.go
index 84e3480..3b5d9e8 100644
--- a/circuits/gadgets/mpt/eth_proof.go
+++ b/circuits/gadgets/mpt/eth_proof.go
@@ -324,7 +324,7 @@ func CheckEthAddressStorageProof(
 		storageProofDepth,
 	)
 
-	blockNumberShift := rlp.ShiftRight(api, 8, 3, rlpBlockHashResult.BlockNumber[:], api.Sub(8, rlpBlockHashResult.BlockNumberLength))
+	blockNumberShift := rlp.ShiftRight(api, 8, 4, rlpBlockHashResult.BlockNumber[:], api.Sub(8, rlpBlockHashResult.BlockNumberLength))
 	var blockNumber = frontend.Variable(0)
 	for i := 0; i < 8; i++ {
 		blockNumber = api.Add(blockNumber, api.Mul(blockNumberShift[i], big.NewInt(int64(math.Pow(16, float64(7-i))))))
-- 
2.43.0


From a6a15bb16db35c059f2fef2ce093ae0c572c089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 27/69] fix: header check returned data after a block time
 shorter than four bytes as part of it

---
 circuits/gadgets/mpt/eth_proof.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/mpt/eth_proof.go b/circuits/gadgets/mpt/eth_proof.go
index 3b5d9e8..6b4ea6e 100644
--- a/circuits/gadgets/mpt/eth_proof.go
+++ b/circuits/gadgets/mpt/eth_proof.go
@@ -230,10 +230,9 @@ func CheckEthBlockHash(
 		blockNumber[i] = fields[8][i]
 	}
 
+	// a time of less than four bytes is aligned to the right
 	var blockTime [8]frontend.Variable
-	for i := 0; i < 8; i++ {
-		blockTime[i] = fields[11][i]
-	}
+	copy(blockTime[:], rlp.ShiftRight(api, 8, 4, fields[11][:8], api.Sub(8, fieldsLength[11])))
 
 	return EthBlockHashResult{
 		Output:            rlpout,
-- 
2.43.0


From 5c548a2979319a77e331350de235b0c5834fa28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 28/69] fix: account check cut off balances of more than 12
 bytes and code hashes of a wrong size

---
 circuits/gadgets/mpt/eth_proof.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/eth_proof.go b/circuits/gadgets/mpt/eth_proof.go
index 6b4ea6e..6e7dd26 100644
--- a/circuits/gadgets/mpt/eth_proof.go
+++ b/circuits/gadgets/mpt/eth_proof.go
@@ -99,8 +99,12 @@ func CheckEthAccountProof(
 		false,
 	)
 
+	// longer fields would be cut off above
+	fieldsFit := api.Mul(rlp.LessThan(api, nonceLength, 65), rlp.LessThan(api, balanceLength, 25))
+	fieldsFit = api.Mul(fieldsFit, rlp.Equal(api, fieldsLength[2], 64), rlp.Equal(api, fieldsLength[3], 64))
+
 	return EthAccountProofResult{
-		Output:        api.Mul(rlpout, mptInclusionResult.Output),
+		Output:        api.Mul(rlpout, mptInclusionResult.Output, fieldsFit),
 		NonceLength:   nonceLength,
 		Nonce:         nonce,
 		BalanceLength: balanceLength,
-- 
2.43.0


From de9c40e1799558bd4389f4ff47934c28886149da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 29/69] fix: emulated MiMC root recursed forever without leaves
 and indexed past the leaves

---
 circuits/gadgets/merkle/emulated_mimc_root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/merkle/emulated_mimc_root.go b/circuits/gadgets/merkle/emulated_mimc_root.go
index 2bf81fc..f994b05 100644
--- a/circuits/gadgets/merkle/emulated_mimc_root.go
+++ b/circuits/gadgets/merkle/emulated_mimc_root.go
@@ -51,7 +51,11 @@ func (a *MimcRootAPI[T]) RestoreMimcRoot(
 
 // MimcRoot computes the merkle root of leaves using mimc hash
 // uses emulated.RemHint and limbs.SplitHint
+// leaves must have a length that is power of two
 func (a *MimcRootAPI[T]) MimcRoot(leaves []*emulated.Element[T]) *emulated.Element[T] {
+	if !isPowerOfTwo(len(leaves)) {
+		panic("leaf count is not power of two")
+	}
 	if len(leaves) == 1 {
 		return leaves[0]
 	}
-- 
2.43.0


From 4a6ae6fb65f29df6a6bd05576c42c96ac6181f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 30/69] fix: Bits2Nibbles passed a slice as one bit and skipped
 every other nibble

---
 circuits/gadgets/conv/bits.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/conv/bits.go b/circuits/gadgets/conv/bits.go
index 4e232ca..4f1cfe8 100644
--- a/circuits/gadgets/conv/bits.go
+++ b/circuits/gadgets/conv/bits.go
@@ -48,9 +48,9 @@ func Bits2Uint128s(api frontend.API, bits [256]frontend.Variable) [2]frontend.Va
 }
 
 func Bits2Nibbles(api frontend.API, bits []frontend.Variable) []frontend.Variable {
-	bytes := []frontend.Variable{}
-	for i := 0; i < len(bits); i += 8 {
-		bytes = append(bytes, api.FromBinary(bits[i:i+4]))
+	nibbles := []frontend.Variable{}
+	for i := 0; i < len(bits); i += 4 {
+		nibbles = append(nibbles, api.FromBinary(bits[i:i+4]...))
 	}
-	return bytes
+	return nibbles
 }
-- 
2.43.0


From edf5f732f39fb778de993be73aa0565c91eb9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 31/69] fix: host proofs for an index outside the block were
 another entry's proof or a crash

---
 common/proof/tx_merkel_proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/proof/tx_merkel_proof.go b/common/proof/tx_merkel_proof.go
index be7a453..7974ae3 100644
--- a/common/proof/tx_merkel_proof.go
+++ b/common/proof/tx_merkel_proof.go
@@ -28,6 +28,10 @@ func (p *ProofWriter) Delete(key []byte) error {
 }
 
 func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(bk.Transactions()) {
+		err = fmt.Errorf("tx index %d out of range, blk: %d, txs: %d", index, bk.NumberU64(), len(bk.Transactions()))
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
@@ -61,6 +65,10 @@ func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex,
 }
 
 func GetReceiptProof(bk *types.Block, receipts types.Receipts, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(receipts) {
+		err = fmt.Errorf("receipt index %d out of range, blk: %d, receipts: %d", index, bk.NumberU64(), len(receipts))
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
-- 
2.43.0


From 0e05b87e29dd003504523d19988e52abf02934cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 32/69] fix: signer recovery accepted altered signature values
 and panicked on oversized ones

---
 common/proof/util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/proof/util.go b/common/proof/util.go
index 29f7146..f98c860 100644
--- a/common/proof/util.go
+++ b/common/proof/util.go
@@ -90,8 +90,11 @@ func RecoverTransactionSignerAddress(transaction *ethtypes.Transaction) ([]byte,
 	v, r, s := transaction.RawSignatureValues()
 
 	if transactionType == types.LegacyTxType {
-		actualV := v.Uint64() - 35 - transaction.ChainId().Uint64()*2
-		v = new(big.Int).SetUint64(actualV)
+		v = new(big.Int).Sub(v, big.NewInt(35))
+		v.Sub(v, new(big.Int).Lsh(transaction.ChainId(), 1))
+	}
+	if !v.IsUint64() || v.Uint64() > 1 || !crypto.ValidateSignatureValues(byte(v.Uint64()), r, s, true) {
+		return nil, types.ErrInvalidSig
 	}
 
 	var rBuf [32]byte
-- 
2.43.0


From 64aedc02b2464cb06d05d013c8274f2d06eb9c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 33/69] fix: decomposing a negative number gave the digits of
 another number

DecomposeBits and its siblings compared the bit length of the absolute
value only, so a negative value was silently replaced by some other one.
Refuse it as they refuse a value that does not fit.
---
 common/utils/compose.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/utils/compose.go b/common/utils/compose.go
index 585d162..9d3ee0f 100644
--- a/common/utils/compose.go
+++ b/common/utils/compose.go
@@ -27,6 +27,9 @@ func decompose[T uint | byte](data *big.Int, bitSize uint, length int) []T {
 		panic(fmt.Errorf("decomposed integer (bit len %d) does not fit into output (bit len %d, length %d)",
 			data.BitLen(), bitSize, length))
 	}
+	if data.Sign() < 0 {
+		panic(fmt.Errorf("cannot decompose negative integer %s", data))
+	}
 	decomposed := make([]T, length)
 	base := new(big.Int).Lsh(big.NewInt(1), bitSize)
 	d := new(big.Int).Set(data)
-- 
2.43.0


From 0551f2667bdabb2deda5c088543ce57522bb539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 34/69] fix: storage query identifier took any text as the slot
 value

A slot value that is not a decimal number dereferenced a nil pointer, and a
negative one was replaced by its absolute value, giving two different
queries one identifier. Return an error for both.
---
 common/proof/query_id.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/proof/query_id.go b/common/proof/query_id.go
index 6016fd2..d6af201 100644
--- a/common/proof/query_id.go
+++ b/common/proof/query_id.go
@@ -1,6 +1,7 @@
 package proof
 
 import (
+	"fmt"
 	"math/big"
 
 	"github.com/brevis-network/zk-utils/common/utils"
@@ -78,7 +79,10 @@ func MiMCHashStorageCustomInputs(
 	var slot = utils.ParseBytes32(GetPaddedSlotBytes(data.Slot), 248)
 	bits = append(bits, utils.Byte32ToFrBits(slot, 248)...)
 
-	storageValue, _ := new(big.Int).SetString(data.SlotValue, 10)
+	storageValue, ok := new(big.Int).SetString(data.SlotValue, 10)
+	if !ok || storageValue.Sign() < 0 {
+		return nil, fmt.Errorf("invalid slot value %q", data.SlotValue)
+	}
 
 	var value = utils.ParseBytes32(storageValue.Bytes(), 248)
 	bits = append(bits, utils.Byte32ToFrBits(value, 248)...)
-- 
2.43.0


From 9d295b352ada0610faa0e521f763b6cc8fb12b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 35/69] fix: chunk proof encoding wrapped block numbers and cut
 malformed words

Block numbers from 2^63 on went through int64 and were encoded as another
number, hashes longer than 32 bytes lost their leading bytes, and text that
is not hex was cut at the first bad character. Encode the full range and
refuse what is not a word, as for overlong proof words.
---
 common/proof/types.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/common/proof/types.go b/common/proof/types.go
index 640f609..4ae0581 100644
--- a/common/proof/types.go
+++ b/common/proof/types.go
@@ -1,7 +1,9 @@
 package proof
 
 import (
+	"fmt"
 	"math/big"
+	"strings"
 
 	"github.com/brevis-network/zk-utils/common/eth"
 	"github.com/brevis-network/zk-utils/common/utils"
@@ -163,21 +165,21 @@ type ChunkProof struct {
 func (p *ChunkProof) EncodeABI() []byte {
 	var args [][]byte
 
-	args = append(args, utils.Hex2Bytes(p.Proof.A[0]), utils.Hex2Bytes(p.Proof.A[1]))
-	args = append(args, utils.Hex2Bytes(p.Proof.B[0][0]), utils.Hex2Bytes(p.Proof.B[0][1]))
-	args = append(args, utils.Hex2Bytes(p.Proof.B[1][0]), utils.Hex2Bytes(p.Proof.B[1][1]))
-	args = append(args, utils.Hex2Bytes(p.Proof.C[0]), utils.Hex2Bytes(p.Proof.C[1]))
+	args = append(args, hex2Word(p.Proof.A[0]), hex2Word(p.Proof.A[1]))
+	args = append(args, hex2Word(p.Proof.B[0][0]), hex2Word(p.Proof.B[0][1]))
+	args = append(args, hex2Word(p.Proof.B[1][0]), hex2Word(p.Proof.B[1][1]))
+	args = append(args, hex2Word(p.Proof.C[0]), hex2Word(p.Proof.C[1]))
 	args = append(args, []byte{}, []byte{}) // field commitment should always be empty
 
-	chunkRoot := utils.Hex2Hash(p.ChunkRoot)
+	chunkRoot := hex2Word(p.ChunkRoot)
 	args = append(args, chunkRoot[0:16], chunkRoot[16:])
-	prevHash := utils.Hex2Hash(p.PrevHash)
+	prevHash := hex2Word(p.PrevHash)
 	args = append(args, prevHash[0:16], prevHash[16:])
-	endHash := utils.Hex2Hash(p.EndHash)
+	endHash := hex2Word(p.EndHash)
 	args = append(args, endHash[0:16], endHash[16:])
-	startBlockNum := big.NewInt(int64(p.StartBlockNum)).Bytes()
+	startBlockNum := new(big.Int).SetUint64(p.StartBlockNum).Bytes()
 	args = append(args, startBlockNum)
-	endBlockNum := big.NewInt(int64(p.EndBlockNum)).Bytes()
+	endBlockNum := new(big.Int).SetUint64(p.EndBlockNum).Bytes()
 	args = append(args, endBlockNum)
 
 	var ret []byte
@@ -187,6 +189,16 @@ func (p *ChunkProof) EncodeABI() []byte {
 	return ret
 }
 
+// hex2Word left pads hex, with or without 0x prefix, to one 32-byte word.
+// It panics if s is not hex or does not fit.
+func hex2Word(s string) []byte {
+	b := utils.Hex2Bytes(s)
+	if n := len(strings.TrimPrefix(strings.TrimPrefix(s, "0x"), "0X")); len(b) != (n+1)/2 {
+		panic(fmt.Sprintf("invalid hex %q", s))
+	}
+	return utils.Pad32Bytes(b)
+}
+
 type Groth16Proof struct {
 	A             [2]string    `json:"a"`
 	B             [2][2]string `json:"b"`
-- 
2.43.0


From ee6083cb7cdd1795b918e682198321f1bda792df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 36/69] fix: contract codec handed out its own selector bytes

EncodeCalldata of a method without arguments and Selector returned the
method's selector slice itself, so a caller changing the result changed
every later encoding. Return copies.
---
 common/utils/contract_codec.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/utils/contract_codec.go b/common/utils/contract_codec.go
index 90dc59c..9e13c6d 100644
--- a/common/utils/contract_codec.go
+++ b/common/utils/contract_codec.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/celer-network/goutils/log"
 	"github.com/ethereum/go-ethereum/accounts/abi"
@@ -25,7 +26,7 @@ func (c *ContractCodec) ABI() *abi.ABI {
 }
 
 func (c *ContractCodec) Selector(methodName string) []byte {
-	return c.abi.Methods[methodName].ID
+	return bytes.Clone(c.abi.Methods[methodName].ID)
 }
 
 func (c *ContractCodec) EncodeCalldata(methodName string, args ...interface{}) ([]byte, error) {
@@ -37,7 +38,7 @@ func (c *ContractCodec) EncodeCalldata(methodName string, args ...interface{}) (
 	if err != nil {
 		return nil, err
 	}
-	return append(method.ID, inputs...), nil
+	return append(bytes.Clone(method.ID), inputs...), nil
 }
 
 func (c *ContractCodec) DecodeCalldata(methodName string, data []byte, ptrs ...interface{}) error {
-- 
2.43.0


From 29b4542f5ef66b5d66a8ea210ebdd13509372e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 37/69] fix: writing a PLONK proving key hid every failure

---
 common/utils/pk-vk-utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/utils/pk-vk-utils.go b/common/utils/pk-vk-utils.go
index 9968f8e..54f9757 100644
--- a/common/utils/pk-vk-utils.go
+++ b/common/utils/pk-vk-utils.go
@@ -33,15 +33,19 @@ func ReadPlonkProvingKey(filename string, pk plonk.ProvingKey) error {
 	return err
 }
 
-func WritePlonkProvingKey(filename string, pk plonk.ProvingKey) {
+func WritePlonkProvingKey(filename string, pk plonk.ProvingKey) error {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error("pk writing open failed... ", err)
+		return err
 	}
 	_, err = pk.WriteTo(f)
 	if err != nil {
+		f.Close()
 		log.Error("pk writing failed... ", err)
+		return err
 	}
+	return f.Close()
 }
 
 func ReadPlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
-- 
2.43.0


From c9ecfd067475bc9c31a9cffa8d171e5f64801319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 38/69] fix: beacon client panicked on unexpected answers,
 rounded large numbers and leaked responses

---
 common/eth/client.go | 74 ++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/common/eth/client.go b/common/eth/client.go
index f7b7159..74f2643 100644
--- a/common/eth/client.go
+++ b/common/eth/client.go
@@ -45,33 +45,26 @@ func (ec *Client) GetSlot(block uint64) (uint64, bool) {
 	}
 	// get slot based on block, see: https://beaconcha.in/api/v1/docs/index.html#/Execution/get_api_v1_execution_block__blockNumber_
 	url := fmt.Sprintf("https://%sbeaconcha.in/api/v1/execution/block/%d", prefix, block)
-	client := &http.Client{}
-	req, _ := http.NewRequest("GET", url, nil)
-	res, err := client.Do(req)
-	if err != nil {
-		fmt.Println("Err is", err)
+	var res struct {
+		Data []struct {
+			PosConsensus *struct {
+				Slot      *uint64 `json:"slot"`
+				Finalized *bool   `json:"finalized"`
+			} `json:"posConsensus"`
+		} `json:"data"`
+	}
+	if err := getJson(url, &res); err != nil {
+		log.Errorf("failed to curl slot by block: %s", err)
 		return 0, false
 	}
-	if res.StatusCode != 200 {
-		log.Errorf("failed to curl slot by block: status code %d", res.StatusCode)
+	if len(res.Data) == 0 {
 		return 0, false
 	}
-	defer res.Body.Close()
-	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	dataList := jsonRes["data"].([]interface{})
-	data := dataList[0].(map[string]interface{})
-	if data["posConsensus"] == nil {
+	posConsensus := res.Data[0].PosConsensus
+	if posConsensus == nil || posConsensus.Slot == nil || posConsensus.Finalized == nil {
 		return 0, false
 	}
-	posConsensus := data["posConsensus"].(map[string]interface{})
-	slot := uint64(0)
-	finilized := false
-
-	slot = uint64(posConsensus["slot"].(float64))
-	finilized = posConsensus["finalized"].(bool)
-	return slot, finilized
+	return *posConsensus.Slot, *posConsensus.Finalized
 }
 
 func (ec *Client) GetBlock(slot uint64) uint64 {
@@ -88,27 +81,34 @@ func (ec *Client) GetBlock(slot uint64) uint64 {
 	}
 	// get slot based on block, see: https://beaconcha.in/api/v1/docs/index.html#/Slot/get_api_v1_slot__slotOrHash_
 	url := fmt.Sprintf("https://%sbeaconcha.in/api/v1/slot/%d", prefix, slot)
-	client := &http.Client{}
-	req, _ := http.NewRequest("GET", url, nil)
-	res, err := client.Do(req)
-	if err != nil {
-		fmt.Println("Err is", err)
+	var res struct {
+		Data struct {
+			ExecBlockNumber *uint64 `json:"exec_block_number"`
+		} `json:"data"`
+	}
+	if err := getJson(url, &res); err != nil {
+		log.Errorf("failed to curl block by slot: %s", err)
 		return 0
 	}
-	if res.StatusCode != 200 {
-		log.Errorf("failed to curl block by slot: status code %d", res.StatusCode)
+	if res.Data.ExecBlockNumber == nil {
 		return 0
 	}
+	return *res.Data.ExecBlockNumber
+}
+
+// getJson decodes the body of a successful response into v.
+func getJson(url string, v interface{}) error {
+	res, err := http.Get(url)
+	if err != nil {
+		return err
+	}
 	defer res.Body.Close()
-	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	data := jsonRes["data"].(map[string]interface{})
-	if data == nil {
-		return 0
+	if res.StatusCode != http.StatusOK {
+		return fmt.Errorf("status code %d", res.StatusCode)
 	}
-	if data["exec_block_number"] == nil {
-		return 0
+	body, err := io.ReadAll(res.Body)
+	if err != nil {
+		return err
 	}
-	return uint64(data["exec_block_number"].(float64))
+	return json.Unmarshal(body, v)
 }
-- 
2.43.0


From b0fb973172a76ab5aadc2766ede7159a18e34648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 39/69] fix: encoding a header without base fee crashed

---
 circuits/fabric/smt/utils.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/circuits/fabric/smt/utils.go b/circuits/fabric/smt/utils.go
index ce88e17..8888823 100644
--- a/circuits/fabric/smt/utils.go
+++ b/circuits/fabric/smt/utils.go
@@ -59,15 +59,23 @@ func EncodeHeaders(headers []types.Header) (encoded [][]frontend.Variable, idxs
 
 func checkDynamicFieldLen(h types.Header) bool {
 	hasErr := 0
-	hasErr += checkLen("Difficulty", len(h.Difficulty.Bytes()), 7)
-	hasErr += checkLen("Number", len(h.Number.Bytes()), 8)
+	hasErr += checkLen("Difficulty", getBigIntByteLen(h.Difficulty), 7)
+	hasErr += checkLen("Number", getBigIntByteLen(h.Number), 8)
 	hasErr += checkLen("GasLimit", getUintByteLen(h.GasLimit), 4)
 	hasErr += checkLen("GasUsed", getUintByteLen(h.GasUsed), 4)
 	hasErr += checkLen("Time", getUintByteLen(h.Time), 4)
-	hasErr += checkLen("BaseFee", len(h.BaseFee.Bytes()), 7)
+	hasErr += checkLen("BaseFee", getBigIntByteLen(h.BaseFee), 7)
 	return hasErr == 0
 }
 
+// getBigIntByteLen treats a missing value like RLP does, as an empty string
+func getBigIntByteLen(x *big.Int) int {
+	if x == nil {
+		return 0
+	}
+	return len(x.Bytes())
+}
+
 func getUintByteLen(x uint64) int {
 	i := 0
 	for x > 0 {
-- 
2.43.0


From df6fcfb9bb9a197d4b920982c1a8102db3f4894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 40/69] fix: headers longer than five blocks were encoded
 without an error

---
 circuits/fabric/smt/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/fabric/smt/utils.go b/circuits/fabric/smt/utils.go
index 8888823..571b3ce 100644
--- a/circuits/fabric/smt/utils.go
+++ b/circuits/fabric/smt/utils.go
@@ -43,6 +43,9 @@ func EncodeHeaders(headers []types.Header) (encoded [][]frontend.Variable, idxs
 		}
 		padded := circuits.Pad101Bytes(headerRLP)
 		paddedBits := circuits.Bytes2BlockBits(padded)
+		if len(paddedBits) > 5*1088 {
+			return nil, nil, fmt.Errorf("header does not fit in 5 blocks %+v", header)
+		}
 		var fv []frontend.Variable
 		for _, b := range paddedBits {
 			fv = append(fv, b)
-- 
2.43.0


From 995233589d4aba776c545034a5f89b8016e79f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 41/69] fix: MiMC hash of 32 bytes accepted inputs of another
 size

---
 circuits/fabric/smt/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/fabric/smt/utils.go b/circuits/fabric/smt/utils.go
index 571b3ce..d4bfe68 100644
--- a/circuits/fabric/smt/utils.go
+++ b/circuits/fabric/smt/utils.go
@@ -157,6 +157,9 @@ func MimcRoot(leaves [][]byte) []byte {
 }
 
 func MimcHashBytes32(in []byte) []byte {
+	if len(in) != 32 {
+		panic(fmt.Errorf("invalid input len: want 32, got %d", len(in)))
+	}
 	h := mimc.NewMiMC()
 	el0 := new(fr.Element).SetBytes(padLeft(in[:16], 16)).Bytes()
 	el1 := new(fr.Element).SetBytes(padLeft(in[16:], 16)).Bytes()
-- 
2.43.0


From 7e3da14dc8961cab728f1e9276de39f58493fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 42/69] fix: Ed25519 verification reduced the hash wrongly and
 rejected every genuine signature

---
 circuits/gadgets/ed25519/ed25519.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 10291b4..79d4c3b 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -3,6 +3,7 @@ package ed25519
 import (
 	"errors"
 	"fmt"
+	"math/big"
 
 	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
 
@@ -119,6 +120,22 @@ func (e *Ed25519) recomposePbKey(vbs []frontend.Variable) []frontend.Variable {
 	return result[:]
 }
 
+// reduceScalar reduces the integer with the given little-endian bits modulo the group order.
+func (e *Ed25519) reduceScalar(bits []frontend.Variable) *emulated.Element[Ed25519Fr] {
+	field := e.fp.scalarField
+	// the emulated field only reduces elements with its own number of limbs
+	chunk := int(Ed25519Fr{}.NbLimbs() * Ed25519Fr{}.BitsPerLimb())
+	shift := field.NewElement(new(big.Int).Lsh(big.NewInt(1), uint(chunk)))
+	for len(bits)%chunk != 0 {
+		bits = append(bits, 0)
+	}
+	res := field.Zero()
+	for i := len(bits) - chunk; i >= 0; i -= chunk {
+		res = field.Add(field.Mul(res, shift), field.FromBits(bits[i:i+chunk]...))
+	}
+	return field.Reduce(res)
+}
+
 func (e *Ed25519) Verify(
 	originPubs []frontend.Variable,
 	sig Signature,
@@ -149,8 +166,7 @@ func (e *Ed25519) Verify(
 		bits = append(bits, e.api.ToBinary(hRam[i], 8)...)
 	}
 
-	hRamScalar := e.fp.scalarField.FromBitsOverflow(bits...)
-	hRamScalar = e.fp.scalarField.Reduce(hRamScalar)
+	hRamScalar := e.reduceScalar(bits)
 
 	baseX := emulated.ValueOf[Ed25519Fp](curve.Params().Base[0])
 	baseY := emulated.ValueOf[Ed25519Fp](curve.Params().Base[1])
-- 
2.43.0


From cf507ed5239f204897c6a45d800b763a98b4c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 43/69] fix: Ed25519 verification accepted signatures forged
 with a point off the curve

---
 circuits/gadgets/ed25519/ed25519.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 79d4c3b..bf7a5a5 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -147,6 +147,9 @@ func (e *Ed25519) Verify(
 		panic("new twistededwards curve failed")
 	}
 
+	curve.AssertIsOnCurve(sig.R)
+	curve.AssertIsOnCurve(pubKey.A)
+
 	hash := sha512.New(e.api)
 	sigBytes := e.bytes(&sig.R)
 	pubKeyBytes := e.bytes(&pubKey.A)
-- 
2.43.0


From 6070c27efc5425c6fa1cc1b494474d0736fa264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 44/69] fix: Ed25519 verification accepted scalars beyond the
 group order

---
 circuits/gadgets/ed25519/ed25519.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index bf7a5a5..8c72db5 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -150,6 +150,9 @@ func (e *Ed25519) Verify(
 	curve.AssertIsOnCurve(sig.R)
 	curve.AssertIsOnCurve(pubKey.A)
 
+	// RFC 8032: a scalar outside the group order is not a signature
+	e.api.AssertIsLessOrEqual(sig.S, new(big.Int).Sub(curve.Params().Order, big.NewInt(1)))
+
 	hash := sha512.New(e.api)
 	sigBytes := e.bytes(&sig.R)
 	pubKeyBytes := e.bytes(&pubKey.A)
-- 
2.43.0


From e4ff029cde731099f72ac563b0ee32ea1b958fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 45/69] fix: Ed25519 verification accepted encodings of
 unreduced coordinates

---
 circuits/gadgets/ed25519/ed25519.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 8c72db5..421b836 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -150,6 +150,11 @@ func (e *Ed25519) Verify(
 	curve.AssertIsOnCurve(sig.R)
 	curve.AssertIsOnCurve(pubKey.A)
 
+	// only reduced coordinates have one encoding
+	for _, v := range []*emulated.Element[Ed25519Fp]{&sig.R.X, &sig.R.Y, &pubKey.A.X, &pubKey.A.Y} {
+		e.fp.baseField.AssertIsInRange(v)
+	}
+
 	// RFC 8032: a scalar outside the group order is not a signature
 	e.api.AssertIsLessOrEqual(sig.S, new(big.Int).Sub(curve.Params().Order, big.NewInt(1)))
 
-- 
2.43.0


From 34feba5db4108a9091f0f4e4e2a150829962c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 46/69] fix: pairing_bls12381: FrobeniusCube multiplied by the
 first Frobenius's constants

The cube of the Frobenius map used the constants of the map itself, so its
result was wrong for every element outside Fp2.
---
 circuits/gadgets/pairing_bls12381/tower.go | 37 +++++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 8dd6802..dd99c05 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -50,6 +50,13 @@ func NewExt2(baseField *curveF) *ext2 {
 			4: {"4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436", "0"},
 			5: {"4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939437", "0"},
 		},
+		3: {
+			1: {"2973677408986561043442465346520108879172042883009249989176415018091420807192182638567116318576472649347015917690530", "1028732146235106349975324479215795277384839936929757896155643118032610843298655225875571310552543014690878354869257"},
+			2: {"0", "1"},
+			3: {"2973677408986561043442465346520108879172042883009249989176415018091420807192182638567116318576472649347015917690530", "2973677408986561043442465346520108879172042883009249989176415018091420807192182638567116318576472649347015917690530"},
+			4: {"4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559786", "0"},
+			5: {"1028732146235106349975324479215795277384839936929757896155643118032610843298655225875571310552543014690878354869257", "2973677408986561043442465346520108879172042883009249989176415018091420807192182638567116318576472649347015917690530"},
+		},
 	}
 	nonResidues := make(map[int]map[int]*E2)
 	for pwr, v := range pwrs {
@@ -181,6 +188,26 @@ func (e ext2) MulByNonResidue2Power5(x *E2) *E2 {
 	return e.mulByNonResidue(x, 2, 5)
 }
 
+func (e ext2) MulByNonResidue3Power1(x *E2) *E2 {
+	return e.mulByNonResidue(x, 3, 1)
+}
+
+func (e ext2) MulByNonResidue3Power2(x *E2) *E2 {
+	return e.mulByNonResidue(x, 3, 2)
+}
+
+func (e ext2) MulByNonResidue3Power3(x *E2) *E2 {
+	return e.mulByNonResidue(x, 3, 3)
+}
+
+func (e ext2) MulByNonResidue3Power4(x *E2) *E2 {
+	return e.mulByNonResidue(x, 3, 4)
+}
+
+func (e ext2) MulByNonResidue3Power5(x *E2) *E2 {
+	return e.mulByNonResidue(x, 3, 5)
+}
+
 func (e ext2) Mul(x, y *E2) *E2 {
 	// var a, b, c fp.Element
 	a := e.fp.Add(&x.A0, &x.A1)    // a.Add(&x.A0, &x.A1)
@@ -694,11 +721,11 @@ func (e ext12) FrobeniusCube(x *E12) *E12 {
 	t3 := e.ext2.Conjugate(&x.C1.B0)       // t[3].Conjugate(&x.C1.B0)
 	t4 := e.ext2.Conjugate(&x.C1.B1)       // t[4].Conjugate(&x.C1.B1)
 	t5 := e.ext2.Conjugate(&x.C1.B2)       // t[5].Conjugate(&x.C1.B2)
-	t1 = e.ext2.MulByNonResidue1Power2(t1) // t[1].MulByNonResidue3Power2(&t[1])
-	t2 = e.ext2.MulByNonResidue1Power4(t2) // t[2].MulByNonResidue3Power4(&t[2])
-	t3 = e.ext2.MulByNonResidue1Power1(t3) // t[3].MulByNonResidue3Power1(&t[3])
-	t4 = e.ext2.MulByNonResidue1Power3(t4) // t[4].MulByNonResidue3Power3(&t[4])
-	t5 = e.ext2.MulByNonResidue1Power5(t5) // t[5].MulByNonResidue3Power5(&t[5])
+	t1 = e.ext2.MulByNonResidue3Power2(t1) // t[1].MulByNonResidue3Power2(&t[1])
+	t2 = e.ext2.MulByNonResidue3Power4(t2) // t[2].MulByNonResidue3Power4(&t[2])
+	t3 = e.ext2.MulByNonResidue3Power1(t3) // t[3].MulByNonResidue3Power1(&t[3])
+	t4 = e.ext2.MulByNonResidue3Power3(t4) // t[4].MulByNonResidue3Power3(&t[4])
+	t5 = e.ext2.MulByNonResidue3Power5(t5) // t[5].MulByNonResidue3Power5(&t[5])
 	return &E12{                           // return z
 		C0: E6{
 			B0: *t0, // z.C0.B0 = t[0]
-- 
2.43.0


From b7c6e4d5cb1037636cd0f10efbbb48ebf9cc06f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 47/69] fix: pairing_bls12381: Karabina decompression failed
 for elements with g3 = 0

One, the value every trivial pairing product reaches in the final
exponentiation, made the circuit unsatisfiable, as did every other element of
the cyclotomic subgroup whose g3 is zero.
---
 circuits/gadgets/pairing_bls12381/tower.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index dd99c05..3309fbe 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -356,6 +356,14 @@ func (e ext2) Inverse(x *E2) *E2 {
 	}
 }
 
+// isZero is 1 for zero and 0 otherwise. -1 is not a square in the base field, so
+// that only zero has norm zero.
+func (e ext2) isZero(x *E2) frontend.Variable {
+	t0 := e.fp.MulMod(&x.A0, &x.A0)
+	t1 := e.fp.MulMod(&x.A1, &x.A1)
+	return e.fp.IsZero(e.fp.Add(t0, t1))
+}
+
 func (e ext2) AssertIsEqual(x, y *E2) {
 	e.fp.AssertIsEqual(&x.A0, &y.A0)
 	e.fp.AssertIsEqual(&x.A1, &y.A1)
@@ -743,8 +751,7 @@ func (e ext12) FrobeniusCube(x *E12) *E12 {
 func (e ext12) DecompressKarabina(x E12) *E12 {
 
 	one := e.ext2.One()
-
-	// TODO: add iszero handle
+	g3IsZero := e.ext2.isZero(&x.C1.B0)
 
 	t0 := e.ext2.Square(&x.C0.B1) //t0[i].Square(&x[i].C0.B1)
 	// t1 = 3 * g1^2 - 2 * g2
@@ -759,6 +766,14 @@ func (e ext12) DecompressKarabina(x E12) *E12 {
 	t1 = e.ext2.Double(&x.C1.B0) //			t1[i].Double(&x[i].C1.B0).
 	t1 = e.ext2.Double(t1)       //				Double(&t1[i])
 
+	// g3 == 0: g4 = 2 * g1 * g5 / g2
+	t2 = e.ext2.Mul(&x.C0.B1, &x.C1.B2)
+	t2 = e.ext2.Double(t2)
+	t0 = e.ext2.Select(g3IsZero, t2, t0)
+	t1 = e.ext2.Select(g3IsZero, &x.C0.B2, t1)
+	// g2 == g3 == 0: x is one and g4 = 0 / 1
+	t1 = e.ext2.Select(e.ext2.isZero(t1), one, t1)
+
 	// z4 = g4
 	zc11 := e.ext2.Div(t0, t1) //	z.C1.B1.Div(&t[0], &t[1]) // costly
 
-- 
2.43.0


From 7327b072b06003159baf0b76ca6258dda17eba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 48/69] fix: pairing_bls12381: the Miller loop overwrote
 operands of deferred multiplication checks

---
 circuits/gadgets/pairing_bls12381/pairing.go | 64 +++++++++++---------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/pairing.go b/circuits/gadgets/pairing_bls12381/pairing.go
index 8361dea..4599113 100644
--- a/circuits/gadgets/pairing_bls12381/pairing.go
+++ b/circuits/gadgets/pairing_bls12381/pairing.go
@@ -143,19 +143,19 @@ func (pr *Pairing) MulBy014(z *E12, c0, c1, c4 *E2) *E12 {
 	//var a, b E6
 	//var d E2
 
-	a := z.C0                        //a.Set(&z.C0)
-	a = *pr.ext6.MulBy01(&a, c0, c1) //a.MulBy01(c0, c1)
+	// the multiplication checks are deferred and keep pointers to the operands,
+	// so the results must not be written over them
+	a := pr.ext6.MulBy01(&z.C0, c0, c1) //a.MulBy01(c0, c1)
 
-	b := z.C1                   //b.Set(&z.C1)
-	b = *pr.ext6.MulBy1(&b, c4) //b.MulBy1(c4)
-	d := pr.ext2.Add(c1, c4)    //d.Add(c1, c4)
+	b := pr.ext6.MulBy1(&z.C1, c4) //b.MulBy1(c4)
+	d := pr.ext2.Add(c1, c4)       //d.Add(c1, c4)
 
-	z1 := pr.ext6.Add(&z.C1, &z.C0)   //z.C1.Add(&z.C1, &z.C0)
-	z1 = pr.ext6.MulBy01(z1, c0, d)   //z.C1.MulBy01(c0, &d)
-	z1 = pr.ext6.Sub(z1, &a)          //z.C1.Sub(&z.C1, &a)
-	z1 = pr.ext6.Sub(z1, &b)          //z.C1.Sub(&z.C1, &b)
-	z0 := pr.ext6.MulByNonResidue(&b) //z.C0.MulByNonResidue(&b)
-	z0 = pr.ext6.Add(z0, &a)          //z.C0.Add(&z.C0, &a)
+	z1 := pr.ext6.Add(&z.C1, &z.C0)  //z.C1.Add(&z.C1, &z.C0)
+	z1 = pr.ext6.MulBy01(z1, c0, d)  //z.C1.MulBy01(c0, &d)
+	z1 = pr.ext6.Sub(z1, a)          //z.C1.Sub(&z.C1, &a)
+	z1 = pr.ext6.Sub(z1, b)          //z.C1.Sub(&z.C1, &b)
+	z0 := pr.ext6.MulByNonResidue(b) //z.C0.MulByNonResidue(&b)
+	z0 = pr.ext6.Add(z0, a)          //z.C0.Add(&z.C0, &a)
 
 	return &E12{
 		C0: *z0,
@@ -192,14 +192,14 @@ func (pr Pairing) AddStep(p *G2Projective, a *G2Affine) (*G2Projective, *LineEva
 	lr2 := L              // l.r2.Set(&L)
 
 	return &G2Projective{
-			X: *px,
-			Y: *py,
-			Z: *pz,
-		}, &LineEvaluation{
-			r0: *lr0,
-			r1: *lr1,
-			r2: *lr2,
-		}
+		X: *px,
+		Y: *py,
+		Z: *pz,
+	}, &LineEvaluation{
+		r0: *lr0,
+		r1: *lr1,
+		r2: *lr2,
+	}
 }
 
 type LineEvaluation struct {
@@ -208,6 +208,18 @@ type LineEvaluation struct {
 	r2 E2
 }
 
+// evalLine evaluates the line l at P. The multiplication checks are deferred and
+// keep pointers to their operands, so l itself must not be written over.
+func (pr Pairing) evalLine(l *LineEvaluation, P *G1Affine) *LineEvaluation {
+	r1 := pr.ext2.MulByElement(&l.r1, &P.X) // l.r1.MulByElement(&l.r1, &P.X)
+	r2 := pr.ext2.MulByElement(&l.r2, &P.Y) // l.r2.MulByElement(&l.r2, &P.Y)
+	return &LineEvaluation{
+		r0: l.r0,
+		r1: *r1,
+		r2: *r2,
+	}
+}
+
 var loopCounter = [64]int8{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 1}
 
 func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
@@ -228,14 +240,12 @@ func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 
 	// i == len(loopCounter) - 2
 	for k := 0; k < n; k++ {
-		qProj[k], l1 = pr.DoubleStep(qProj[k])               // qProj[k].DoubleStep(&l1)
-		l1.r1 = *pr.ext12.ext2.MulByElement(&l1.r1, &p[k].X) // l1.r1.MulByElement(&l1.r1, &p[k].X)
-		l1.r2 = *pr.ext12.ext2.MulByElement(&l1.r2, &p[k].Y) // l1.r2.MulByElement(&l1.r2, &p[k].Y)
+		qProj[k], l1 = pr.DoubleStep(qProj[k]) // qProj[k].DoubleStep(&l1)
+		l1 = pr.evalLine(l1, p[k])
 
 		qProj[k], l2 = pr.AddStep(qProj[k], q[k]) // qProj[k].AddMixedStep(&l2, &q[k])
 		// line eval
-		l2.r1 = *pr.ext12.ext2.MulByElement(&l2.r1, &p[k].X) //l2.r1.MulByElement(&l2.r1, &p[k].X)
-		l2.r2 = *pr.ext12.ext2.MulByElement(&l2.r2, &p[k].Y) //l2.r2.MulByElement(&l2.r2, &p[k].Y)
+		l2 = pr.evalLine(l2, p[k])
 
 		// ℓ × ℓ
 		lines := pr.ext12.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2)
@@ -250,16 +260,14 @@ func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 			qProj[k], l1 = pr.DoubleStep(qProj[k])
 
 			// line eval
-			l1.r1 = *pr.ext2.MulByElement(&l1.r1, &p[k].X) //l1.r1.MulByElement(&l1.r1, &p[k].X)
-			l1.r2 = *pr.ext2.MulByElement(&l1.r2, &p[k].Y) //l1.r2.MulByElement(&l1.r2, &p[k].Y)
+			l1 = pr.evalLine(l1, p[k])
 
 			if loopCounter[i] == 0 {
 				result = pr.MulBy014(result, &l1.r0, &l1.r1, &l1.r2) //result.MulBy014(&l1.r0, &l1.r1, &l1.r2)
 			} else {
 				qProj[k], l2 = pr.AddStep(qProj[k], q[k]) //qProj[k].AddMixedStep(&l2, &q[k])
 				// line eval
-				l2.r1 = *pr.ext12.ext2.MulByElement(&l2.r1, &p[k].X) //l2.r1.MulByElement(&l2.r1, &p[k].X)
-				l2.r2 = *pr.ext12.ext2.MulByElement(&l2.r2, &p[k].Y) //	l2.r2.MulByElement(&l2.r2, &p[k].Y)
+				l2 = pr.evalLine(l2, p[k])
 				// ℓ × ℓ
 				lines := pr.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2) // lines.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2)
 				// (ℓ × ℓ) × result
-- 
2.43.0


From 59d97ca7f4462672f9728ff43bfcca882b5376af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 49/69] fix: pairing_bls12381: G2 arithmetic overwrote operands
 of deferred multiplication checks

---
 circuits/gadgets/pairing_bls12381/g2.go | 126 ++++++++++++------------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/g2.go b/circuits/gadgets/pairing_bls12381/g2.go
index 80cb580..fa21b29 100644
--- a/circuits/gadgets/pairing_bls12381/g2.go
+++ b/circuits/gadgets/pairing_bls12381/g2.go
@@ -69,36 +69,36 @@ func G2JacobianAddAssign(api frontend.API, p, a G2Jacobian) G2Jacobian {
 	r := et2.Sub(S2, S1)
 	r = et2.Double(r)
 	V := et2.Mul(U1, I)
-	p.X = *et2.Square(r)
-	p.X = *et2.Sub(&p.X, J)
-	p.X = *et2.Sub(&p.X, V)
-	p.X = *et2.Sub(&p.X, V)
-	p.Y = *et2.Sub(V, &p.X)
-	p.Y = *et2.Mul(&p.Y, r)
+	// the multiplication checks are deferred and keep pointers to the operands,
+	// so the results must not be written over them
+	x := et2.Square(r)
+	x = et2.Sub(x, J)
+	x = et2.Sub(x, V)
+	x = et2.Sub(x, V)
+	y := et2.Sub(V, x)
+	y = et2.Mul(y, r)
 	S1 = et2.Mul(S1, J)
 	S1 = et2.Double(S1)
-	p.Y = *et2.Sub(&p.Y, S1)
-	p.Z = *et2.Add(&p.Z, &a.Z)
-	p.Z = *et2.Square(&p.Z)
-	p.Z = *et2.Sub(&p.Z, Z1Z1)
-	p.Z = *et2.Sub(&p.Z, Z2Z2)
-	p.Z = *et2.Mul(&p.Z, H)
-
-	res := p
-
-	res.X = *et2.Select(pNotEqualA, &res.X, &res3.X)
-	res.Y = *et2.Select(pNotEqualA, &res.Y, &res3.Y)
-	res.Z = *et2.Select(pNotEqualA, &res.Z, &res3.Z)
-
-	res.X = *et2.Select(aZNotZero, &res.X, &res2.X)
-	res.Y = *et2.Select(aZNotZero, &res.Y, &res2.Y)
-	res.Z = *et2.Select(aZNotZero, &res.Z, &res2.Z)
-
-	res.X = *et2.Select(pZNotZero, &res.X, &res1.X)
-	res.Y = *et2.Select(pZNotZero, &res.Y, &res1.Y)
-	res.Z = *et2.Select(pZNotZero, &res.Z, &res1.Z)
-
-	return res
+	y = et2.Sub(y, S1)
+	z := et2.Add(&p.Z, &a.Z)
+	z = et2.Square(z)
+	z = et2.Sub(z, Z1Z1)
+	z = et2.Sub(z, Z2Z2)
+	z = et2.Mul(z, H)
+
+	x = et2.Select(pNotEqualA, x, &res3.X)
+	y = et2.Select(pNotEqualA, y, &res3.Y)
+	z = et2.Select(pNotEqualA, z, &res3.Z)
+
+	x = et2.Select(aZNotZero, x, &res2.X)
+	y = et2.Select(aZNotZero, y, &res2.Y)
+	z = et2.Select(aZNotZero, z, &res2.Z)
+
+	x = et2.Select(pZNotZero, x, &res1.X)
+	y = et2.Select(pZNotZero, y, &res1.Y)
+	z = et2.Select(pZNotZero, z, &res1.Z)
+
+	return G2Jacobian{X: *x, Y: *y, Z: *z}
 }
 
 func G2JacobianNeg(api frontend.API, p G2Jacobian) G2Jacobian {
@@ -140,22 +140,23 @@ func G2JacobianDouble(api frontend.API, p G2Jacobian) G2Jacobian {
 	S = et2.Double(S)
 	M := et2.Double(XX)
 	M = et2.Add(M, XX)
-	p.Z = *et2.Add(&p.Z, &p.Y)
-	p.Z = *et2.Square(&p.Z)
-	p.Z = *et2.Sub(&p.Z, YY)
-	p.Z = *et2.Sub(&p.Z, ZZ)
-	T := *et2.Square(M)
-	p.X = T
-	T = *et2.Double(S)
-	p.X = *et2.Sub(&p.X, &T)
-	p.Y = *et2.Sub(S, &p.X)
-	p.Y = *et2.Mul(&p.Y, M)
+	// the multiplication checks are deferred and keep pointers to the operands,
+	// so the results must not be written over them
+	z := et2.Add(&p.Z, &p.Y)
+	z = et2.Square(z)
+	z = et2.Sub(z, YY)
+	z = et2.Sub(z, ZZ)
+	x := et2.Square(M)
+	T := et2.Double(S)
+	x = et2.Sub(x, T)
+	y := et2.Sub(S, x)
+	y = et2.Mul(y, M)
 	YYYY = et2.Double(YYYY)
 	YYYY = et2.Double(YYYY)
 	YYYY = et2.Double(YYYY)
-	p.Y = *et2.Sub(&p.Y, YYYY)
+	y = et2.Sub(y, YYYY)
 
-	return p
+	return G2Jacobian{X: *x, Y: *y, Z: *z}
 }
 
 func G2JacobianPsi(api frontend.API, a G2Jacobian) G2Jacobian {
@@ -180,16 +181,11 @@ func G2JacobianPsi(api frontend.API, a G2Jacobian) G2Jacobian {
 		A1: emulated.ValueOf[BLS12381Fp](vA1),
 	}
 
-	var p G2Jacobian
-	p.X = a.X
-	p.Y = a.Y
-	p.Z = a.Z
-	p.X = *et2.Conjugate(&p.X)
-	p.X = *et2.Mul(&p.X, &u)
-	p.Y = *et2.Conjugate(&p.Y)
-	p.Y = *et2.Mul(&p.Y, &v)
-	p.Z = *et2.Conjugate(&p.Z)
-	return p
+	return G2Jacobian{
+		X: *et2.Mul(et2.Conjugate(&a.X), &u),
+		Y: *et2.Mul(et2.Conjugate(&a.Y), &v),
+		Z: *et2.Conjugate(&a.Z),
+	}
 }
 
 func G2Psi(api frontend.API, a G2Affine) *G2Affine {
@@ -214,14 +210,10 @@ func G2Psi(api frontend.API, a G2Affine) *G2Affine {
 		A1: emulated.ValueOf[BLS12381Fp](vA1),
 	}
 
-	var p G2Affine
-	p.X = a.X
-	p.Y = a.Y
-	p.X = *et2.Conjugate(&p.X)
-	p.X = *et2.Mul(&p.X, &u)
-	p.Y = *et2.Conjugate(&p.Y)
-	p.Y = *et2.Mul(&p.Y, &v)
-	return &p
+	return &G2Affine{
+		X: *et2.Mul(et2.Conjugate(&a.X), &u),
+		Y: *et2.Mul(et2.Conjugate(&a.Y), &v),
+	}
 }
 
 func G2JacobianConstScalarMul(api frontend.API, a G2Jacobian) G2Jacobian {
@@ -285,8 +277,11 @@ func G2JacobianPhi(api frontend.API, p G2Jacobian) G2Jacobian {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	thirdRootOneG2.Square(&thirdRootOneG1)
 	t := emulated.ValueOf[BLS12381Fp](thirdRootOneG2)
-	p.X = *et2.MulByElement(&p.X, &t)
-	return p
+	return G2Jacobian{
+		X: *et2.MulByElement(&p.X, &t),
+		Y: p.Y,
+		Z: p.Z,
+	}
 }
 
 // Affine
@@ -329,8 +324,10 @@ func G2Phi(api frontend.API, p G2Affine) G2Affine {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	thirdRootOneG2.Square(&thirdRootOneG1)
 	t := emulated.ValueOf[BLS12381Fp](thirdRootOneG2)
-	p.X = *et2.MulByElement(&p.X, &t)
-	return p
+	return G2Affine{
+		X: *et2.MulByElement(&p.X, &t),
+		Y: p.Y,
+	}
 }
 
 // Neg outputs -p
@@ -511,7 +508,10 @@ func G2ClearCofactor(api frontend.API, a G2Affine) *G2Affine {
 	var thirdRootOneG1 fp.Element
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	trog1 := emulated.ValueOf[BLS12381Fp](thirdRootOneG1)
-	t.X = *et2.MulByElement(&t.X, &trog1)
+	t = &G2Affine{
+		X: *et2.MulByElement(&t.X, &trog1),
+		Y: t.Y,
+	}
 	res = G2SubAssign(api, *res, *t)
 
 	return res
-- 
2.43.0


From c32c1d417d9345300e7ad10f27e1bf19e4aa735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 50/69] fix: pairing_bls12381: hashing to G2 overwrote operands
 of deferred multiplication checks

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index aec5ad2..efe4875 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -251,7 +251,7 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	et2 := NewExt2(ba)
 	// https://www.ietf.org/archive/id/draft-irtf-cfrg-hash-to-curve-16.html#name-sqrt_ratio-for-any-field
 
-	tv1 := E2{
+	tv1 := &E2{
 		A0: emulated.ValueOf[BLS12381Fp](fp.Element{8921533702591418330, 15859389534032789116, 3389114680249073393, 15116930867080254631, 3288288975085550621, 1021049300055853010}),
 		A1: emulated.ValueOf[BLS12381Fp](fp.Element{8921533702591418330, 15859389534032789116, 3389114680249073393, 15116930867080254631, 3288288975085550621, 1021049300055853010}),
 	}
@@ -287,7 +287,7 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	}
 
 	tv2 = et2.Mul(tv3, &c7)           // 13. tv2 = tv3 * c7
-	tv5 = et2.Mul(tv4, &tv1)          // 14. tv5 = tv4 * tv1
+	tv5 = et2.Mul(tv4, tv1)           // 14. tv5 = tv4 * tv1
 	tv3 = et2.Select(isQNr, tv2, tv3) // tv3.Select(int(isQNr), &tv3, &tv2) // 15. tv3 = CMOV(tv2, tv3, isQR)
 	tv4 = et2.Select(isQNr, tv5, tv4) // tv4.Select(int(isQNr), &tv4, &tv5) // 16. tv4 = CMOV(tv5, tv4, isQR)
 
@@ -296,9 +296,9 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	for i := 3; i >= 2; i-- { // 17. for i in (c1, c1 - 1, ..., 2):
 		tv5 = E2Exp(api, *tv4, &exp)
 		nE1 := E2NotOne(api, *tv5)
-		tv2 = et2.Mul(tv3, &tv1)
-		tv1 = *et2.Mul(&tv1, &tv1)
-		tv5 = et2.Mul(tv4, &tv1)
+		tv2 = et2.Mul(tv3, tv1)
+		tv1 = et2.Mul(tv1, tv1)
+		tv5 = et2.Mul(tv4, tv1)
 		tv3 = et2.Select(nE1, tv2, tv3)
 		tv4 = et2.Select(nE1, tv5, tv4)
 		if i > 2 {
@@ -323,15 +323,16 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 		return res
 	}
 
+	base := &x
 	e := k
 	if k.Sign() == -1 {
 		// negative k, we invert
 		// if k < 0: xᵏ (mod q²) == (x⁻¹)ᵏ (mod q²)
-		x = *et2.Inverse(&x)
+		base = et2.Inverse(&x)
 
 		// we negate k in a temp big.Int since
 		// Int.Bit(_) of k and -k is different
-		e.Neg(k)
+		e = new(big.Int).Neg(k)
 	}
 
 	b := e.Bytes()
@@ -340,7 +341,7 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 		for j := 0; j < 8; j++ {
 			res = et2.Square(res)
 			if (w & (0b10000000 >> j)) != 0 {
-				res = et2.Mul(res, &x)
+				res = et2.Mul(res, base)
 			}
 		}
 	}
@@ -609,8 +610,7 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 	b := et2.Square(a)
 	res2 := &G2Affine{}
 	res2.X = *et2.Mul(&Q.X, b)
-	res2.Y = *et2.Mul(&Q.Y, b)
-	res2.Y = *et2.Mul(&res2.Y, a)
+	res2.Y = *et2.Mul(et2.Mul(&Q.Y, b), a)
 	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
@@ -649,9 +649,13 @@ func ClearCofactor(api frontend.API, a G2Jacobian) *G2Jacobian {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	trog1 := emulated.ValueOf[BLS12381Fp](thirdRootOneG1)
 
-	t.X = *et2.MulByElement(&t.X, &trog1)
+	wt := G2Jacobian{
+		X: *et2.MulByElement(&t.X, &trog1),
+		Y: t.Y,
+		Z: t.Z,
+	}
 
-	res = G2JacobianSubAssign(api, res, t)
+	res = G2JacobianSubAssign(api, res, wt)
 
 	return &res
 
-- 
2.43.0


From 368bd18b5e281fb445dd687780f1294df1c0bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:48 +0000
Subject: [PATCH 51/69] fix: pairing_bls12381: zero and equality tests
 overwrote operands and trusted non-canonical reductions

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 23 +++----------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index efe4875..a556b98 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -525,14 +525,8 @@ func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	bs := ba.ToBits(&x)
-	var isNotZero frontend.Variable
-	isNotZero = 0
-	for _, b := range bs {
-		isNotZero = api.Or(isNotZero, b)
-	}
-	return isNotZero
+	// IsZero reduces x and checks that the reduction is canonical
+	return api.Sub(1, ba.IsZero(&x))
 }
 
 func G1NotEqualOne(api frontend.API, x baseEl) frontend.Variable {
@@ -548,18 +542,7 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	y = *ba.Reduce(&y)
-	xBits := ba.ToBits(&x)
-	yBits := ba.ToBits(&y)
-
-	var notEqual frontend.Variable
-	notEqual = 0
-	for i, b := range xBits {
-		notEqual = api.Or(notEqual, api.Xor(b, yBits[i]))
-	}
-
-	return notEqual
+	return G1NotZero(api, *ba.Sub(&x, &y))
 }
 
 func E2NotEqual(api frontend.API, x, y E2) frontend.Variable {
-- 
2.43.0


From f0a9d604cb5df6de559a542cd77ff825f38da290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 52/69] fix: pairing_bls12381: circuits shared mutable SSWU
 constants

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index a556b98..564e45e 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -164,27 +164,31 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 
 	et2 := NewExt2(ba)
 
-	tv1 := et2.Square(&e2)    // 1.  tv1 = u²
-	tv1 = et2.Mul(tv1, &Tv4Z) // 2.  tv1 = Z * tv1
-	tv2 := et2.Square(tv1)    // 3.  tv2 = tv1²
-	tv2 = et2.Add(tv2, tv1)   // 4.  tv2 = tv2 + tv1
+	// the deferred multiplication checks cache evaluations in their operands, so
+	// the constants shared by all circuits are copied
+	coeffA, coeffB, z := SswuIsoCurveCoeffA, SswuIsoCurveCoeffB, Tv4Z
 
-	tv3 := et2.Add(tv2, et2.One())          // 5.  tv3 = tv2 + 1
-	tv3 = et2.Mul(tv3, &SswuIsoCurveCoeffB) // 6.  tv3 = B * tv3
+	tv1 := et2.Square(&e2)  // 1.  tv1 = u²
+	tv1 = et2.Mul(tv1, &z)  // 2.  tv1 = Z * tv1
+	tv2 := et2.Square(tv1)  // 3.  tv2 = tv1²
+	tv2 = et2.Add(tv2, tv1) // 4.  tv2 = tv2 + tv1
+
+	tv3 := et2.Add(tv2, et2.One()) // 5.  tv3 = tv2 + 1
+	tv3 = et2.Mul(tv3, &coeffB)    // 6.  tv3 = B * tv3
 
 	tv2 = et2.Neg(tv2)
-	tv4 := et2.Mul(tv2, &SswuIsoCurveCoeffA)
+	tv4 := et2.Mul(tv2, &coeffA)
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
 
-	tv6 := et2.Square(tv4)                   // 10. tv6 = tv4²
-	tv5 := et2.Mul(tv6, &SswuIsoCurveCoeffA) // 11. tv5 = A * tv6
-	tv2 = et2.Add(tv2, tv5)                  // 12. tv2 = tv2 + tv5
-	tv2 = et2.Mul(tv2, tv3)                  // 13. tv2 = tv2 * tv3
-	tv6 = et2.Mul(tv6, tv4)                  // 14. tv6 = tv6 * tv4
+	tv6 := et2.Square(tv4)       // 10. tv6 = tv4²
+	tv5 := et2.Mul(tv6, &coeffA) // 11. tv5 = A * tv6
+	tv2 = et2.Add(tv2, tv5)      // 12. tv2 = tv2 + tv5
+	tv2 = et2.Mul(tv2, tv3)      // 13. tv2 = tv2 * tv3
+	tv6 = et2.Mul(tv6, tv4)      // 14. tv6 = tv6 * tv4
 
-	tv5 = et2.Mul(tv6, &SswuIsoCurveCoeffB) // 15. tv5 = B * tv6
-	tv2 = et2.Add(tv2, tv5)                 // 16. tv2 = tv2 + tv5
+	tv5 = et2.Mul(tv6, &coeffB) // 15. tv5 = B * tv6
+	tv2 = et2.Add(tv2, tv5)     // 16. tv2 = tv2 + tv5
 
 	x = et2.Mul(tv1, tv3) // 17.   x = tv1 * tv3
 
-- 
2.43.0


From 1d3370f6f14801a88974a499380fc5a0f1e8fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 53/69] fix: pairing_bls12381: the point at infinity could not
 be converted to affine

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 564e45e..708303c 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -593,12 +593,13 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 		X: *et2.Zero(),
 		Y: *et2.Zero(),
 	}
-	a := et2.Inverse(&Q.Z)
+	jacZNotZero := E2NotZero(api, Q.Z)
+	// the point at infinity has no inverse of Z, its result is selected below
+	a := et2.Inverse(et2.Select(jacZNotZero, &Q.Z, et2.One()))
 	b := et2.Square(a)
 	res2 := &G2Affine{}
 	res2.X = *et2.Mul(&Q.X, b)
 	res2.Y = *et2.Mul(et2.Mul(&Q.Y, b), a)
-	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
 	final.X = *et2.Select(jacZNotZero, &res2.X, &res1.X)
-- 
2.43.0


From be97db5f3d90da432d5360af136b84f4ed2499ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 54/69] fix: pairing_bls12381: sgn0 ignored zero real parts and
 trusted non-canonical reductions

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 33 +++++--------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 708303c..fde5956 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -219,31 +219,14 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 		A0: *ba.Reduce(&u.A0),
 		A1: *ba.Reduce(&u.A1),
 	}
-	var A0Bits [6][]frontend.Variable
-	A0Bits[0] = bits.ToBinary(api, uu.A0.Limbs[0], bits.WithNbDigits(64))
-	A0Bits[1] = bits.ToBinary(api, uu.A0.Limbs[1], bits.WithNbDigits(64))
-	A0Bits[2] = bits.ToBinary(api, uu.A0.Limbs[2], bits.WithNbDigits(64))
-	A0Bits[3] = bits.ToBinary(api, uu.A0.Limbs[3], bits.WithNbDigits(64))
-	A0Bits[4] = bits.ToBinary(api, uu.A0.Limbs[4], bits.WithNbDigits(64))
-	A0Bits[5] = bits.ToBinary(api, uu.A0.Limbs[5], bits.WithNbDigits(64))
-
-	var sign, zero, signI, zeroI frontend.Variable
-	sign = 0
-	zero = 1
-	signI = A0Bits[0][0]
-
-	zeroI = 0
-	for _, subBits := range A0Bits {
-		for _, b := range subBits {
-			zeroI = api.Or(signI, b)
-		}
-	}
-
-	sign = api.Or(sign, api.And(zero, signI))
-	zero = api.And(zero, zeroI)
-	signI = bits.ToBinary(api, uu.A1.Limbs[0], bits.WithNbDigits(64))[0]
-	sign = api.Or(sign, api.And(zero, signI))
-	return sign
+	// the parities are those of the canonical representatives; IsZero checks that
+	// its operand is one
+	zero0 := ba.IsZero(&uu.A0)
+	ba.AssertIsInRange(&uu.A1)
+
+	sign0 := bits.ToBinary(api, uu.A0.Limbs[0], bits.WithNbDigits(64))[0]
+	sign1 := bits.ToBinary(api, uu.A1.Limbs[0], bits.WithNbDigits(64))[0]
+	return api.Or(sign0, api.And(zero0, sign1))
 }
 
 func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable) {
-- 
2.43.0


From 088764cc838e3e068f89b3d7a02de099b0a8c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 55/69] fix: pairing_bls12381: the SSWU map divided by zero for
 its exceptional inputs

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index fde5956..d4b023f 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -176,8 +176,9 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 	tv3 := et2.Add(tv2, et2.One()) // 5.  tv3 = tv2 + 1
 	tv3 = et2.Mul(tv3, &coeffB)    // 6.  tv3 = B * tv3
 
-	tv2 = et2.Neg(tv2)
-	tv4 := et2.Mul(tv2, &coeffA)
+	// 7. tv4 = CMOV(Z, -tv2, tv2 != 0)
+	tv4 := et2.Select(E2NotZero(api, *tv2), et2.Neg(tv2), &z)
+	tv4 = et2.Mul(tv4, &coeffA) // 8. tv4 = A * tv4
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
 
-- 
2.43.0


From 472019fb861d16204d200fd40be41926df5f239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 56/69] fix: pairing_bls12381: hashing to G2 used a hint that
 was not registered

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index d4b023f..c12087d 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -7,6 +7,7 @@ import (
 	"github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
 
 	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
+	"github.com/consensys/gnark/constraint/solver"
 	"github.com/consensys/gnark/frontend"
 	"github.com/consensys/gnark/std/math/bits"
 	"github.com/consensys/gnark/std/math/emulated"
@@ -31,6 +32,11 @@ var (
 	DST = []byte("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_")
 )
 
+func init() {
+	// used by ReduceWithoutConstantCheck, not among the hints gnark registers
+	solver.RegisterHint(emulated.RemHint)
+}
+
 const Bytes = 1 + (fp.Bits-1)/8
 const L = 16 + Bytes       // 52
 const Sha256BlockSize = 64 // 512 bits, 64 bytes
-- 
2.43.0


From d7bb2a6b58fce1b607598944fd09d68aeb16a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:21 +0000
Subject: [PATCH 57/69] fix: pairing_bls12381: G2ConstScalarMul overwrote
 operands of deferred multiplication checks

---
 circuits/gadgets/pairing_bls12381/g2.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/g2.go b/circuits/gadgets/pairing_bls12381/g2.go
index fa21b29..86e0606 100644
--- a/circuits/gadgets/pairing_bls12381/g2.go
+++ b/circuits/gadgets/pairing_bls12381/g2.go
@@ -434,17 +434,17 @@ func G2ConstScalarMul(api frontend.API, Q G2Affine) *G2Affine {
 	table[1] = *G2AddAssign(api, Q, *negPhiQ)
 	table[2] = *G2AddAssign(api, *negQ, phiQ)
 	table[3] = *G2AddAssign(api, Q, phiQ)
-	Acc := table[3]
+	Acc := &table[3]
 	if k[0].Bit(nbits-1) == 1 && k[1].Bit(nbits-1) == 1 {
-		Acc = *G2Double(api, Acc)
-		Acc = *G2AddAssign(api, Acc, table[3])
+		Acc = G2Double(api, *Acc)
+		Acc = G2AddAssign(api, *Acc, table[3])
 		nbits = nbits - 1
 	}
 	for i := nbits - 1; i > 0; i-- {
-		Acc = *DoubleAndAdd(api, &Acc, &table[k[0].Bit(i)+2*k[1].Bit(i)])
+		Acc = DoubleAndAdd(api, Acc, &table[k[0].Bit(i)+2*k[1].Bit(i)])
 	}
 
-	negQ = G2AddAssign(api, *negQ, Acc)
+	negQ = G2AddAssign(api, *negQ, *Acc)
 	negPhiQ = G2AddAssign(api, *negPhiQ, *negQ)
 
 	return &G2Affine{
-- 
2.43.0


From 3426dd71d8213b15cf639e90df629f011316b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 58/69] fix: utils: BitsToFrBigInt did not reduce the modulus
 itself

---
 common/utils/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/binary.go b/common/utils/binary.go
index ba021f6..0b6ee43 100644
--- a/common/utils/binary.go
+++ b/common/utils/binary.go
@@ -59,7 +59,7 @@ func BitsToFrBigInt(b []uint, frModulus *big.Int) *big.Int {
 			var decimal = big.NewInt(1)
 			decimal.Lsh(decimal, uint(lens-i-1))
 			res.Add(res, decimal)
-			if res.Cmp(frModulus) > 0 {
+			if res.Cmp(frModulus) >= 0 {
 				res.Mod(res, frModulus)
 			}
 		}
-- 
2.43.0


From cb89a8289468cc95eb09f81f5467fbff240d36ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 59/69] fix: utils: GenerateBls12377Hash dropped words beyond
 the BLS12-377 modulus

The words were reduced by the BN254 modulus, which is larger than any 253-bit
word. MiMC refuses words that are not reduced, and the error was ignored.
---
 common/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utils/utils.go b/common/utils/utils.go
index 32a162b..05c6885 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -181,9 +181,9 @@ func GenerateBls12377Hash(input []byte) []byte {
 	var i int
 	for i < len(bits) {
 		if i+bitSize > len(bits) {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BLS12_377.ScalarField()))
 		} else {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BLS12_377.ScalarField()))
 		}
 		i += bitSize
 	}
-- 
2.43.0


From 83a06a1079edc2d6c4dceae8f4a9b7f8b9c132e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 60/69] fix: utils: MiMCBlockPad0 cut data longer than a block

---
 common/utils/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/utils/utils.go b/common/utils/utils.go
index 05c6885..9a752f4 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -199,6 +199,9 @@ func GenerateBls12377Hash(input []byte) []byte {
 
 // MiMCBlockPad0 pad 0 into miMC block up to specific block size in Big-Endian
 func MiMCBlockPad0(data []byte, blockSize int) []byte {
+	if len(data) > blockSize {
+		panic(fmt.Sprintf("%x len %d > block size %d", data, len(data), blockSize))
+	}
 	var block = make([]byte, blockSize)
 	for i := 0; i < blockSize; i++ {
 		if i < blockSize-len(data) {
-- 
2.43.0


From 8fa75511502f2754459c7c44cec8695c03a09772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 61/69] fix: utils: the vk hashes ignored words that are no
 field elements

MiMC stops at such a word, so it and all that follow were left out of the hash.
---
 common/utils/plonk_util.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/utils/plonk_util.go b/common/utils/plonk_util.go
index 6d44699..e2209af 100644
--- a/common/utils/plonk_util.go
+++ b/common/utils/plonk_util.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"fmt"
 	"math/big"
 
 	"github.com/celer-network/goutils/log"
@@ -98,7 +99,9 @@ func CalculateAppVkHashFor761(vk replonk.VerifyingKey[sw_bls12377.ScalarField, s
 	elementData = element.Bytes()
 	hashData = append(hashData, elementData[:]...)
 
-	hasher.Write(hashData[:])
+	if _, err := hasher.Write(hashData[:]); err != nil {
+		panic(fmt.Sprintf("app vk word is not a field element: %s", err.Error()))
+	}
 
 	return hasher.Sum(nil)
 }
@@ -109,8 +112,11 @@ func CalculateAppVkHashFrom761To254(appVkHash []byte) []byte {
 	}
 	bn254Hash := bn254mimc.NewMiMC()
 
-	bn254Hash.Write(MiMCBlockPad0(appVkHash[0:24], bn254Hash.BlockSize()))
-	bn254Hash.Write(MiMCBlockPad0(appVkHash[24:], bn254Hash.BlockSize()))
+	for _, word := range [][]byte{appVkHash[0:24], appVkHash[24:]} {
+		if _, err := bn254Hash.Write(MiMCBlockPad0(word, bn254Hash.BlockSize())); err != nil {
+			panic(fmt.Sprintf("app vk hash word is not a field element: %s", err.Error()))
+		}
+	}
 
 	return bn254Hash.Sum(nil)
 }
-- 
2.43.0


From c3493e3d60afb7126ff774cf42b85264a832abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 62/69] fix: utils: PoseidonBn254Hasher kept the caller's
 value, which may change before Sum

---
 common/utils/poseidon_bn254.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/poseidon_bn254.go b/common/utils/poseidon_bn254.go
index 1e72e45..1349e97 100644
--- a/common/utils/poseidon_bn254.go
+++ b/common/utils/poseidon_bn254.go
@@ -14,7 +14,7 @@ func NewPoseidonBn254() *PoseidonBn254Hasher {
 }
 
 func (p *PoseidonBn254Hasher) Write(input *big.Int) {
-	p.preimages = append(p.preimages, input)
+	p.preimages = append(p.preimages, new(big.Int).Set(input))
 }
 
 func (p *PoseidonBn254Hasher) Reset() {
-- 
2.43.0


From 02f907c43bdf4f99e42025a169d51c69953ab1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 63/69] fix: utils: PoseidonBn254Hasher wrapped negative inputs

---
 common/utils/poseidon_bn254.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/utils/poseidon_bn254.go b/common/utils/poseidon_bn254.go
index 1349e97..a261b70 100644
--- a/common/utils/poseidon_bn254.go
+++ b/common/utils/poseidon_bn254.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"fmt"
 	"github.com/iden3/go-iden3-crypto/poseidon"
 	"math/big"
 )
@@ -22,5 +23,10 @@ func (p *PoseidonBn254Hasher) Reset() {
 }
 
 func (p *PoseidonBn254Hasher) Sum() (*big.Int, error) {
+	for _, preimage := range p.preimages {
+		if preimage.Sign() < 0 {
+			return nil, fmt.Errorf("negative input %s", preimage)
+		}
+	}
 	return poseidon.Hash(p.preimages)
 }
-- 
2.43.0


From 00f3327aaa75ac0fd191e7acf62f45b57ad377df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 64/69] fix: s3api: ListObjects left out all but the first page

---
 common/s3api/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/s3api/client.go b/common/s3api/client.go
index ae6b386..709b0a6 100644
--- a/common/s3api/client.go
+++ b/common/s3api/client.go
@@ -64,14 +64,18 @@ func NewClient(bucket string) (*Client, error) {
 }
 
 func (s *Client) ListObjects(prefix string) ([]*s3.Object, error) {
-	res, err := s.s3.ListObjects(&s3.ListObjectsInput{
+	var objects []*s3.Object
+	err := s.s3.ListObjectsPages(&s3.ListObjectsInput{
 		Bucket: aws.String(s.bucket),
 		Prefix: aws.String(prefix),
+	}, func(page *s3.ListObjectsOutput, lastPage bool) bool {
+		objects = append(objects, page.Contents...)
+		return true
 	})
 	if err != nil {
 		return nil, err
 	}
-	return res.Contents, nil
+	return objects, nil
 }
 
 func (s *Client) Upload(key string, body io.Reader) error {
-- 
2.43.0


From e9e3e336c90432fbd36708546347119facf933c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:56 +0000
Subject: [PATCH 65/69] fix: Str2Uint64 read numbers from 2^63 on as 2^63-1 and
 negative text as a huge number, and unreadable text gave a partial value

---
 common/utils/string.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/common/utils/string.go b/common/utils/string.go
index 8fd7855..1025738 100644
--- a/common/utils/string.go
+++ b/common/utils/string.go
@@ -3,19 +3,29 @@ package utils
 import (
 	"math/big"
 	"strconv"
+	"strings"
 )
 
 func Str2BigInt(str string) *big.Int {
-	b := new(big.Int)
-	b.SetString(str, 10)
+	b, ok := new(big.Int).SetString(str, 10)
+	if !ok {
+		return new(big.Int)
+	}
 	return b
 }
 
 func Str2Int(str string) int {
-	ret, _ := strconv.Atoi(str)
+	ret, err := strconv.Atoi(str)
+	if err != nil {
+		return 0
+	}
 	return ret
 }
 
 func Str2Uint64(str string) uint64 {
-	return uint64(Str2Int(str))
+	ret, err := strconv.ParseUint(strings.TrimPrefix(str, "+"), 10, 64)
+	if err != nil {
+		return 0
+	}
+	return ret
 }
-- 
2.43.0


From d3a2efdb5644cdc2c99362acd99644c8d5a9b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:56 +0000
Subject: [PATCH 66/69] fix: TsMilli and TsMilliToTime overflowed for times
 after April 2262

---
 common/utils/time.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/utils/time.go b/common/utils/time.go
index 35977b9..66b66a6 100644
--- a/common/utils/time.go
+++ b/common/utils/time.go
@@ -7,12 +7,11 @@ import (
 )
 
 func TsMilli(t time.Time) uint64 {
-	ts := uint64(t.UnixNano())
-	return ts / uint64(time.Millisecond)
+	return uint64(t.UnixMilli())
 }
 
 func TsMilliToTime(ts uint64) time.Time {
-	return time.Unix(0, int64(ts*1000000))
+	return time.UnixMilli(int64(ts))
 }
 
 func TsSecToTime(ts uint64) time.Time {
-- 
2.43.0


From ab68bcd96f50fff4b773d14900ef647523bca21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 67/69] fix: the text of an OpRequestsFulfilled event with
 fewer nonces than ids was a panic

---
 common/eth/evstr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/eth/evstr.go b/common/eth/evstr.go
index a8c5ddc..c51ff57 100644
--- a/common/eth/evstr.go
+++ b/common/eth/evstr.go
@@ -15,7 +15,11 @@ func (ev *BrevisRequestRequestSent) PrettyLog(onchid uint64) string {
 func (s *BrevisRequestOpRequestsFulfilled) String() string {
 	var out string
 	for i, id := range s.ProofIds {
-		out += fmt.Sprintf("<requestId %x nonce %d> ", id, s.Nonces[i])
+		if i < len(s.Nonces) {
+			out += fmt.Sprintf("<requestId %x nonce %d> ", id, s.Nonces[i])
+		} else {
+			out += fmt.Sprintf("<requestId %x> ", id)
+		}
 	}
 	return fmt.Sprintf("< %s>", out)
 }
-- 
2.43.0


From 5343d3309fd6472560a2256bd65c98afd9304bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:08 +0000
Subject: [PATCH 68/69] fix: uploading a partly read file stored its beginning
 again

The uploader reads a body that is an io.ReaderAt from offset zero but
takes its length from the current position, so that a body whose beginning
had been read was stored with the wrong bytes. Hand it such a body as a
plain reader.
---
 common/s3api/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/s3api/client.go b/common/s3api/client.go
index 709b0a6..ab24864 100644
--- a/common/s3api/client.go
+++ b/common/s3api/client.go
@@ -80,6 +80,12 @@ func (s *Client) ListObjects(prefix string) ([]*s3.Object, error) {
 
 func (s *Client) Upload(key string, body io.Reader) error {
 	log.Debugf("uploading file: bucket %s, key %s", s.bucket, key)
+	// the uploader reads an io.ReaderAt from its beginning, whatever its position is
+	if seeker, ok := body.(io.Seeker); ok {
+		if pos, err := seeker.Seek(0, io.SeekCurrent); err == nil && pos != 0 {
+			body = struct{ io.Reader }{body}
+		}
+	}
 	_, err := s.uploader.Upload(&s3manager.UploadInput{
 		Bucket: aws.String(s.bucket),
 		Key:    aws.String(key),
-- 
2.43.0


From 1f67a611869524ea807c6186e748603e2078277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:28 +0000
Subject: [PATCH 69/69] fix: WriteVKSolidity changed the caller's key while it
 wrote

---
 common/utils/pk-vk-utils.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/utils/pk-vk-utils.go b/common/utils/pk-vk-utils.go
index 54f9757..eadd8b7 100644
--- a/common/utils/pk-vk-utils.go
+++ b/common/utils/pk-vk-utils.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"bytes"
 	"io"
 	"os"
 
@@ -239,6 +240,16 @@ func WriteCcs(filename string, css constraint.ConstraintSystem) error {
 }
 
 func WriteVKSolidity(filename string, vk groth16.VerifyingKey) error {
+	// the export changes the key while it runs, so it is given a copy
+	var buf bytes.Buffer
+	if _, err := vk.WriteRawTo(&buf); err != nil {
+		return err
+	}
+	own := groth16.NewVerifyingKey(vk.CurveID())
+	if _, err := own.ReadFrom(&buf); err != nil {
+		return err
+	}
+
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
@@ -246,7 +257,7 @@ func WriteVKSolidity(filename string, vk groth16.VerifyingKey) error {
 
 	defer f.Close()
 
-	err = vk.ExportSolidity(f)
+	err = own.ExportSolidity(f)
 
 	if err != nil {
 		return err
-- 
2.43.0

