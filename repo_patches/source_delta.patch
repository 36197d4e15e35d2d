From 8d103d54ecddad7b1f8160b94f8d7b28b7834e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:26 +0000
Subject: [PATCH 1/7] fix: bptree: range search reads the lower bound from the
 right leaf

When the lower bound falls behind the last record of a leaf, the search moves
on to the next leaf but kept reading the key from the previous one, so a range
lying between two leafs returned the whole tree (wrapping around the circular
leaf list) instead of nothing.
---
 bptree/bptree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 014004e..deb92d2 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -765,6 +765,7 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 			}
 
 			minLeafAddr = leafHeader(minLeafController).NextAddr()
+			minLeafController = bpt.getLeafController(minLeafAddr)
 			minRecordIndex = 0
 		}
 	}
-- 
2.43.0


From c319a0f87771e8215c9cbd3fe89ff59931c2a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:27 +0000
Subject: [PATCH 2/7] fix: bptree: range search for a single absent key finds
 nothing

A range whose bounds are one and the same absent key returned the record
following that key.
---
 bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index deb92d2..7eb105b 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -771,7 +771,7 @@ func (bpt *BPTree) search(minKey []byte, maxKey []byte) (int64, int, int64, int,
 	}
 
 	if d == 0 {
-		return minLeafAddr, minRecordIndex, minLeafAddr, minRecordIndex, true
+		return minLeafAddr, minRecordIndex, minLeafAddr, minRecordIndex, ok3
 	}
 
 	if !(!ok1 && ok3) {
-- 
2.43.0


From 9858282360318d1bbc8d7f19d66c77fec42e9c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:13 +0000
Subject: [PATCH 3/7] fix: bptree: don't leave a leaf overloaded after shifting
 records

Counting the records to shift applied the load of the record it then refused
to shift, so the final check could accept a shift which leaves the leaf above
the overload threshold; the next insertion then overran the page and corrupted
the tree.
---
 bptree/leaf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bptree/leaf.go b/bptree/leaf.go
index a0c3bd8..412cbe5 100644
--- a/bptree/leaf.go
+++ b/bptree/leaf.go
@@ -202,13 +202,13 @@ func (lc leafController) CountRecordsForShiftingToLeft(leftSibling leafControlle
 
 	for i := 0; ; i++ {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
@@ -236,13 +236,13 @@ func (lc leafController) CountRecordsForShiftingToRight(rightSibling leafControl
 
 	for i := lc.NumberOfRecords() - 1; ; i-- {
 		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))
-		loadSize1 -= recordSize
-		loadSize2 += recordSize
 
-		if loadSize1 < leafUnderloadThreshold || loadSize2 > leafOverloadThreshold {
+		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= recordSize
+		loadSize2 += recordSize
 		recordCount++
 
 		if loadSize1 <= loadSize2 {
-- 
2.43.0


From e848ee734c05e9970ae3b7de619232c91764cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:41 +0000
Subject: [PATCH 4/7] fix: bptree: account for separator keys when shifting
 non-leaf children

Shifting children between non-leafs moves the parent's separator key into the
receiving node and a key of the giving node up into the parent, but counting
the children to shift ignored both, and, like for leafs, applied the load of a
child it then refused to shift. Nodes were left above the overload threshold
and the next insertion overran the page and corrupted the tree.
---
 bptree/bptree.go  |  8 +++----
 bptree/nonleaf.go | 53 ++++++++++++++++++++++++++---------------------
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 7eb105b..3afe466 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -494,7 +494,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController := bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			m := nonLeafController1.NumberOfChildren() - numberOfChildren
 			nonLeafController1.ShiftToRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 
@@ -516,7 +516,7 @@ func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr := nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController := bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForShiftingToLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			m := nonLeafLSiblingController.NumberOfChildren()
 			nonLeafController1.ShiftToLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 
@@ -661,7 +661,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafRSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex + 1)
 		nonLeafRSiblingController = bpt.getNonLeafController(nonLeafRSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafRSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromRight(nonLeafParentController, nonLeafIndex, nonLeafRSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromRight(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafRSiblingController)
 			bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
 			bpt.ensureNotOverloadNonLeaf(recordPath, i-1)
@@ -675,7 +675,7 @@ func (bpt *BPTree) ensureNotUnderloadNonLeaf(recordPath *recordPath, i int) {
 		nonLeafLSiblingAddr = nonLeafParentController.GetChildAddr(nonLeafIndex - 1)
 		nonLeafLSiblingController = bpt.getNonLeafController(nonLeafLSiblingAddr)
 
-		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafLSiblingController); numberOfChildren >= 1 {
+		if numberOfChildren := nonLeafController1.CountChildrenForUnshiftingFromLeft(nonLeafParentController, nonLeafIndex, nonLeafLSiblingController); numberOfChildren >= 1 {
 			nonLeafController1.UnshiftFromLeft(numberOfChildren, nonLeafParentController, nonLeafIndex, nonLeafLSiblingController)
 			// >>> fix record path begin
 			(*recordPath)[i].RecordOrNonLeafChildIndex = numberOfChildren + nonLeafChildIndex
diff --git a/bptree/nonleaf.go b/bptree/nonleaf.go
index f3c0f4d..1402fe5 100644
--- a/bptree/nonleaf.go
+++ b/bptree/nonleaf.go
@@ -202,25 +202,29 @@ func (nlc nonLeafController) MergeFromRight(parent nonLeafController, index int,
 	nlc.InsertChildren(nlc.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToLeft(leftSibling nonLeafController) int {
-	loadSize1 := nlc.GetLoadSize() - (nonLeafChildHeaderSize + len(nlc.GetKey(0)))
-	loadSize2 := leftSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := leftSibling.GetLoadSize()
+	keySize := len(parent.GetKey(index))
 	childCount := 0
 
 	for i := 1; ; i++ {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+		nextKeySize := len(nlc.GetKey(i))
+		size1 := nonLeafChildHeaderSize + nextKeySize
+		size2 := nonLeafChildHeaderSize + keySize
+
+		if loadSize1-size1 < nonLeafUnderloadThreshold || loadSize2+size2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= size1
+		loadSize2 += size2
+		keySize = nextKeySize
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -238,28 +242,29 @@ func (nlc nonLeafController) ShiftToLeft(numberOfChildren int, parent nonLeafCon
 	leftSibling.InsertChildren(leftSibling.NumberOfChildren(), children)
 }
 
-func (nlc nonLeafController) CountChildrenForShiftingToRight(rightSibling nonLeafController) int {
-	n := nlc.NumberOfChildren()
-	lastChildSize := nonLeafChildHeaderSize + len(nlc.GetKey(n-1))
-	loadSize1 := nlc.GetLoadSize() - lastChildSize
-	loadSize2 := rightSibling.GetLoadSize() + nonLeafChildHeaderSize
+func (nlc nonLeafController) CountChildrenForShiftingToRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	loadSize1 := nlc.GetLoadSize()
+	loadSize2 := rightSibling.GetLoadSize()
+	keySize := len(parent.GetKey(index + 1))
 	childCount := 0
 
-	for i := n - 2; ; i-- {
-		if loadSize1 < nonLeafUnderloadThreshold || loadSize2 > nonLeafOverloadThreshold {
+	for i := nlc.NumberOfChildren() - 1; ; i-- {
+		nextKeySize := len(nlc.GetKey(i))
+		size1 := nonLeafChildHeaderSize + nextKeySize
+		size2 := nonLeafChildHeaderSize + keySize
+
+		if loadSize1-size1 < nonLeafUnderloadThreshold || loadSize2+size2 > nonLeafOverloadThreshold {
 			break
 		}
 
+		loadSize1 -= size1
+		loadSize2 += size2
+		keySize = nextKeySize
 		childCount++
 
 		if loadSize1 <= loadSize2 {
 			break
 		}
-
-		childSize := nonLeafChildHeaderSize + len(nlc.GetKey(i))
-		loadSize1 -= childSize
-		loadSize2 += lastChildSize
-		lastChildSize = childSize
 	}
 
 	if loadSize1 > nonLeafOverloadThreshold || loadSize2 < nonLeafUnderloadThreshold {
@@ -277,16 +282,16 @@ func (nlc nonLeafController) ShiftToRight(numberOfChildren int, parent nonLeafCo
 	rightSibling.InsertChildren(0, children)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(leftSibling nonLeafController) int {
-	return leftSibling.CountChildrenForShiftingToRight(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromLeft(parent nonLeafController, index int, leftSibling nonLeafController) int {
+	return leftSibling.CountChildrenForShiftingToRight(parent, index-1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromLeft(numberOfChildren int, parent nonLeafController, index int, leftSibling nonLeafController) {
 	leftSibling.ShiftToRight(numberOfChildren, parent, index-1, nlc)
 }
 
-func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(rightSibling nonLeafController) int {
-	return rightSibling.CountChildrenForShiftingToLeft(nlc)
+func (nlc nonLeafController) CountChildrenForUnshiftingFromRight(parent nonLeafController, index int, rightSibling nonLeafController) int {
+	return rightSibling.CountChildrenForShiftingToLeft(parent, index+1, nlc)
 }
 
 func (nlc nonLeafController) UnshiftFromRight(numberOfChildren int, parent nonLeafController, index int, rightSibling nonLeafController) {
-- 
2.43.0


From dec36a30a8b3beca660183e96248b675fee03edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:56 +0000
Subject: [PATCH 5/7] fix: bptree: don't treat a leaf as a non-leaf after the
 height decreases

After rebalancing an underloaded non-leaf the overload check reused the index
in the record path even if the height had been decreased meanwhile, so the
index could refer to the leaf, whose header was then read as a non-leaf one.
With leafs located beyond 4 GiB in the file this corrupted the tree.
---
 bptree/bptree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bptree/bptree.go b/bptree/bptree.go
index 3afe466..4f0c832 100644
--- a/bptree/bptree.go
+++ b/bptree/bptree.go
@@ -464,6 +464,11 @@ func (bpt *BPTree) ensureNotOverloadLeaf(recordPath *recordPath) {
 }
 
 func (bpt *BPTree) ensureNotOverloadNonLeaf(recordPath *recordPath, i int) {
+	if i >= len(*recordPath)-1 {
+		// the height has been decreased, no non-leaf at the given index any more
+		return
+	}
+
 	nonLeafAddr := (*recordPath)[i].NodeAddr
 	nonLeafController1 := bpt.getNonLeafController(nonLeafAddr)
 
-- 
2.43.0


From e28dd4f2327567507047b487f6e5dcd90112b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 6/7] fix: keys and values scanned share no spare capacity

The slices that Dict.Scan and HashMap.FetchItem return lie one after the
other in one buffer. Appending to a key overwrote its value, and appending
to a value overwrote the items the cursor was to deliver next.
---
 hashmap/hashmap.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hashmap/hashmap.go b/hashmap/hashmap.go
index dd3a259..5c30c5d 100644
--- a/hashmap/hashmap.go
+++ b/hashmap/hashmap.go
@@ -616,10 +616,12 @@ func unpackSlot(slot *protocol.HashSlot) []hashItem {
 		itemInfo := &slot.ItemInfos[j]
 		item := &items[j]
 		item.KeySum = itemInfo.KeySum
-		item.Key = slot.Bin[i : i+int(itemInfo.KeySize)]
-		i += int(itemInfo.KeySize)
-		item.Value = slot.Bin[i : i+int(itemInfo.ValueSize)]
-		i += int(itemInfo.ValueSize)
+		k := i + int(itemInfo.KeySize)
+		item.Key = slot.Bin[i:k:k]
+		i = k
+		k += int(itemInfo.ValueSize)
+		item.Value = slot.Bin[i:k:k]
+		i = k
 	}
 
 	// cost of optimization for binary size
-- 
2.43.0


From e05d8bfa08b60f199ad5ac313b05aea5231137e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 7/7] fix: reading part of a long key or value at a very large
 offset panicked

---
 bptree/key.go   | 2 +-
 bptree/value.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bptree/key.go b/bptree/key.go
index d8f8c1f..54a6148 100644
--- a/bptree/key.go
+++ b/bptree/key.go
@@ -86,7 +86,7 @@ func (kf keyFactory) ReadKey(key key, dataOffset int, buffer []byte) int {
 		return copy(buffer, key[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= keyPrefixSize {
+	if dataOffset <= keyPrefixSize-len(buffer) {
 		return copy(buffer, key[dataOffset:])
 	}
 
diff --git a/bptree/value.go b/bptree/value.go
index 373d116..eff82b9 100644
--- a/bptree/value.go
+++ b/bptree/value.go
@@ -49,7 +49,7 @@ func (vf valueFactory) ReadValue(value value, dataOffset int, buffer []byte) int
 		return copy(buffer, value[dataOffset:])
 	}
 
-	if dataOffset+len(buffer) <= valuePrefixSize {
+	if dataOffset <= valuePrefixSize-len(buffer) {
 		return copy(buffer, value[dataOffset:])
 	}
 
-- 
2.43.0

