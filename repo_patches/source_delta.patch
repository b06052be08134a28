From 082343b13483bcfa9a8f2765acc66dd63dd25fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 01/65] fix: accept strided arrays of length one

A one-element view of a strided array counts as contiguous for numpy, so it is
not copied, and its stride (which is never used) was then rejected.
---
 src/MultiKey.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index d2bd21d..ce12281 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -252,7 +252,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                     goto EXIT_ROUTINE;
                 }
 
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     PyErr_Format(PyExc_ValueError, "BuildArrayInfo array strides must match itemsize -- %lld %lld", itemSize,
                                  stride0);
@@ -261,7 +261,7 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
             }
             else
             {
-                if (itemSize != stride0 && aInfo[i].ArrayLength > 0)
+                if (itemSize != stride0 && aInfo[i].ArrayLength > 1)
                 {
                     // If 2 dims and Fortran, then strides will not match
                     // TODO: better check
-- 
2.43.0


From c8aa28d8cd67433756f19d03f414ce31255262d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 02/65] fix: honour the strides of a grouping filter

---
 src/MultiKey.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index ce12281..521e72a 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -392,7 +392,13 @@ public:
                     }
                     else
                     {
-                        pBoolFilterObject = (PyArrayObject *)filterArray;
+                        // A copy is made when the filter is not contiguous
+                        pBoolFilterObject = EnsureContiguousArray((PyArrayObject *)filterArray);
+                        if (! pBoolFilterObject)
+                        {
+                            return;
+                        }
+                        filterObjAllocated = (PyObject *)pBoolFilterObject != filterArray;
                     }
                     pBoolFilter = (bool *)PyArray_BYTES(pBoolFilterObject);
                     LOGGING("Bool array is at %p\n", pBoolFilter);
-- 
2.43.0


From bbacfef1a5dc3f7706e4fe50312c8a3b077574de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 03/65] fix: group 1 and 2 byte keys correctly in prime hash
 mode

---
 src/HashLinear.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 033a06d..03828fc 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5119,6 +5119,12 @@ uint64_t DoLinearHashItemSize(int64_t totalRows, int64_t totalItemSize, const ch
 {
     uint64_t numUnique = 0;
 
+    // 1 and 2 byte keys index the table directly, which takes a slot for every possible key
+    if (sizeof(HASH_TYPE) <= 2)
+    {
+        hashMode = HASH_MODE_MASK;
+    }
+
     CHashLinear<HASH_TYPE, INDEX_TYPE> * pHashLinear = new CHashLinear<HASH_TYPE, INDEX_TYPE>(hashMode, false);
     INDEX_TYPE * pFirstArray = (INDEX_TYPE *)pHashLinear->AllocMemory(hintSize, -1, sizeof(INDEX_TYPE) * (totalRows + 1), false);
 
-- 
2.43.0


From 014bec18ca38ddb0c91a4ff0007e743bb92aaf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 04/65] fix: match 1 and 2 byte categorical keys correctly in
 prime hash mode

---
 src/HashLinear.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 03828fc..b869349 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -4540,8 +4540,8 @@ int64_t IsMemberHashCategorical(int64_t size1, void * pInput1, int64_t size2, vo
     {
     case 1:
         {
-            CHashLinear<uint8_t, int32_t> * pHashLinear = new CHashLinear<uint8_t, int32_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, hintSize);
+            CHashLinear<uint8_t, int32_t> * pHashLinear = new CHashLinear<uint8_t, int32_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, 256 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint8_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4550,8 +4550,8 @@ int64_t IsMemberHashCategorical(int64_t size1, void * pInput1, int64_t size2, vo
 
     case 2:
         {
-            CHashLinear<uint16_t, int32_t> * pHashLinear = new CHashLinear<uint16_t, int32_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, hintSize);
+            CHashLinear<uint16_t, int32_t> * pHashLinear = new CHashLinear<uint16_t, int32_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, 65536 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint16_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4628,8 +4628,8 @@ int64_t IsMemberHashCategorical64(int64_t size1, void * pInput1, int64_t size2,
     {
     case 1:
         {
-            CHashLinear<uint8_t, int64_t> * pHashLinear = new CHashLinear<uint8_t, int64_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, hintSize);
+            CHashLinear<uint8_t, int64_t> * pHashLinear = new CHashLinear<uint8_t, int64_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint8_t *)pInput2, 256 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint8_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
@@ -4638,8 +4638,8 @@ int64_t IsMemberHashCategorical64(int64_t size1, void * pInput1, int64_t size2,
 
     case 2:
         {
-            CHashLinear<uint16_t, int64_t> * pHashLinear = new CHashLinear<uint16_t, int64_t>(hashMode);
-            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, hintSize);
+            CHashLinear<uint16_t, int64_t> * pHashLinear = new CHashLinear<uint16_t, int64_t>(HASH_MODE_MASK);
+            pHashLinear->MakeHashLocation(size2, (uint16_t *)pInput2, 65536 / 2);
             missed = pHashLinear->IsMemberCategorical(size1, (uint16_t *)pInput1, pOutput);
             delete pHashLinear;
             return missed;
-- 
2.43.0


From fe2d55b06ded25c0c62cc215ce0d5213fbe97eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:59 +0000
Subject: [PATCH 05/65] fix: clear the requested bins of float32 nansum and
 nanmean

---
 src/GroupBy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f2438d2..3243bd6 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -395,7 +395,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOutAccum, 0, sizeof(double) * (binHigh - binLow));
         }
 
@@ -880,7 +880,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOriginalOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOriginalOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOut, 0, sizeof(double) * (binHigh - binLow));
         }
 
-- 
2.43.0


From 1d476ab270ec57e25f41f6a02a685dbe9d752cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 06/65] fix: rolling windows longer than the index type's range

---
 src/GroupBy.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 3243bd6..42b5d1c 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -1406,7 +1406,7 @@ public:
                 pDest[index] = currentSum;
             }
 
-            for (V j = start + windowSize; j < last; j++)
+            for (int64_t j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
@@ -1472,7 +1472,7 @@ public:
                 pDest[index] = currentSum;
             }
 
-            for (V j = start + windowSize; j < last; j++)
+            for (int64_t j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
@@ -1544,7 +1544,7 @@ public:
                 pDest[index] = currentSum / (j - start + 1);
             }
 
-            for (V j = start + windowSize; j < last; j++)
+            for (int64_t j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
@@ -1612,7 +1612,7 @@ public:
                 pDest[index] = count > 0 ? currentSum / count : invalid_out;
             }
 
-            for (V j = start + windowSize; j < last; j++)
+            for (int64_t j = start + windowSize; j < last; j++)
             {
                 V const index{ pGroup[j] };
 
@@ -1863,7 +1863,7 @@ public:
                     }
                 }
 
-                for (V j = start + windowSize; j < last; j++)
+                for (int64_t j = start + windowSize; j < last; j++)
                 {
                     V const index{ pGroup[j] };
                     if constexpr (is_scalar)
@@ -1896,7 +1896,7 @@ public:
                     }
                 }
 
-                for (V j = last - windowSize; j > start; j--)
+                for (int64_t j = last - windowSize; j > start; j--)
                 {
                     V const index{ pGroup[j] };
                     if constexpr (is_scalar)
@@ -1987,7 +1987,7 @@ public:
                         pDest[index] = invalid;
                     }
 
-                    for (V j = start + windowSize; j < last; j++)
+                    for (int64_t j = start + windowSize; j < last; j++)
                     {
                         V const index{ pGroup[j] };
                         U temp = (U)pSrc[index];
@@ -2008,7 +2008,7 @@ public:
                         pDest[index] = invalid;
                     }
 
-                    for (V j = last - windowSize; j > start; j--)
+                    for (int64_t j = last - windowSize; j > start; j--)
                     {
                         V const index{ pGroup[j] };
                         U temp = (U)pSrc[index];
-- 
2.43.0


From a7536a7c0528868311edfc6df50becefd78e9e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 07/65] fix: medians whose two middle values overflow their sum

---
 src/Ema.cpp     |  2 +-
 src/GroupBy.cpp | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 119ebe4..3d514e6 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -21,7 +21,7 @@ typedef void (*ROLLING_FUNC)(void * pDataIn, void * pDataOut, int64_t len, int64
 template <typename T, typename U>
 inline U QUANTILE_SPLIT(T X, T Y)
 {
-    return (X + Y) / 2.0;
+    return (static_cast<double>(X) + static_cast<double>(Y)) / 2.0;
 }
 
 // Overloads to handle cases of bool, float, long double
diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 42b5d1c..cc016b3 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -45,19 +45,20 @@ inline uint16_t MEDIAN_SPLIT(uint16_t X, uint16_t Y)
 }
 inline int32_t MEDIAN_SPLIT(int32_t X, int32_t Y)
 {
-    return (X + Y) / 2;
+    return static_cast<int32_t>((static_cast<int64_t>(X) + Y) / 2);
 }
 inline uint32_t MEDIAN_SPLIT(uint32_t X, uint32_t Y)
 {
-    return (X + Y) / 2;
+    return static_cast<uint32_t>((static_cast<uint64_t>(X) + Y) / 2);
 }
 inline int64_t MEDIAN_SPLIT(int64_t X, int64_t Y)
 {
-    return (X + Y) / 2;
+    // The sum of values of opposite sign cannot overflow
+    return (X < 0) != (Y < 0) ? (X + Y) / 2 : X / 2 + Y / 2 + (X % 2 + Y % 2) / 2;
 }
 inline uint64_t MEDIAN_SPLIT(uint64_t X, uint64_t Y)
 {
-    return (X + Y) / 2;
+    return X / 2 + Y / 2 + (X % 2 + Y % 2) / 2;
 }
 inline float MEDIAN_SPLIT(float X, float Y)
 {
@@ -75,7 +76,7 @@ inline long double MEDIAN_SPLIT(long double X, long double Y)
 template <typename T, typename U>
 inline U QUANTILE_SPLIT(T X, T Y)
 {
-    return (X + Y) / 2.0;
+    return (static_cast<double>(X) + static_cast<double>(Y)) / 2.0;
 }
 
 // Overloads to handle cases of bool, float, long double
-- 
2.43.0


From e648b23e6da6138a87c266193cf016f0c49ba8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:45 +0000
Subject: [PATCH 08/65] fix: MergeBinnedAndSorted reads the bin of the right
 row of the second table

---
 src/HashLinear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index b869349..f654810 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -819,7 +819,7 @@ void FindLastMatchCategorical(int64_t arraySize1, int64_t arraySize2, U * pKey1,
         else
         {
             // key2 is first
-            U lookup = pKey2[i];
+            U lookup = pKey2[j];
             pLocation[lookup] = j;
             j++;
         }
-- 
2.43.0


From 072b1a2b5a9c5aafa35fd5c9a3a21474614113f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 09/65] fix: MergeBinnedAndSorted dispatches on the bins' type,
 not the values' type

---
 src/HashLinear.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index f654810..89d16e5 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -6205,11 +6205,24 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
     bool isIndex32 = true;
     bool success = false;
 
-    indexArray = AllocateLikeNumpyArray(key1, dtype1);
+    // The bins may be of another type than the values
+    int32_t keyDtype1 = ObjectToDtype((PyArrayObject *)key1);
+    int32_t keyDtype2 = ObjectToDtype((PyArrayObject *)key2);
+    if (keyDtype1 < 0 || keyDtype2 < 0 ||
+        PyArray_ITEMSIZE((PyArrayObject *)key1) != PyArray_ITEMSIZE((PyArrayObject *)key2))
+    {
+        PyErr_Format(PyExc_ValueError,
+                     "MergeBinnedAndSorted key types are not the same "
+                     "dtype.num: %d vs %d",
+                     keyDtype1, keyDtype2);
+        return NULL;
+    }
+
+    indexArray = AllocateLikeNumpyArray(key1, keyDtype1);
 
     if (indexArray)
     {
-        switch (dtype1)
+        switch (keyDtype1)
         {
         case NPY_INT8:
             success = MergePreBinned<int8_t>(ArrayLength(key1), (int8_t *)pKey1, pVal1, ArrayLength(key2), (int8_t *)pKey2, pVal2,
-- 
2.43.0


From 8dc95ef50f16b94f334e2510219722fb8fb1b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:35 +0000
Subject: [PATCH 10/65] fix: decayed averages with both a filter and a reset
 mask returned zeros

---
 src/Ema.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 3d514e6..2d881a8 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1468,11 +1468,10 @@ public:
                                 pLastEma[location] = 0;
                                 pLastTime[location] = 0;
                             }
-                            pLastEma[location] = value + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
-                            pLastTime[location] = pTime[i];
                         }
-
-                        pDest[i] = 0;
+                        pLastEma[location] = value + pLastEma[location] * exp(-decayRate * (pTime[i] - pLastTime[location]));
+                        pLastTime[location] = pTime[i];
+                        pDest[i] = pLastEma[location];
                     }
                     else
                     {
-- 
2.43.0


From 696e92bbe150063afd0d61ff0a23fa688584e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:30 +0000
Subject: [PATCH 11/65] fix: cumulative minimum and maximum left rows of the
 excluded group undefined

---
 src/Ema.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 2d881a8..8db6b93 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -951,6 +951,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -978,6 +982,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1010,6 +1018,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1020,6 +1032,11 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                 K const location = pKey[i];
 
                 // Bin 0 is bad
+                if (location < GB_BASE_INDEX)
+                {
+                    pDest[i] = Invalid;
+                    continue;
+                }
                 // if new value (pSrc[i]) is invalid, do nothing
                 if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
                 {
@@ -1100,6 +1117,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -1130,6 +1151,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1161,6 +1186,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1171,6 +1200,11 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                 K const location = pKey[i];
 
                 // Bin 0 is bad
+                if (location < GB_BASE_INDEX)
+                {
+                    pDest[i] = Invalid;
+                    continue;
+                }
                 if (not pWorkSpaceDataSeen[location])
                 {
                     pWorkSpace[location] = pSrc[i];
@@ -1190,6 +1224,7 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
         }
     }
 
+    WORKSPACE_FREE(pWorkSpaceDataSeen);
     WORKSPACE_FREE(pWorkSpace);
 }
 
-- 
2.43.0


From 9f97ea918c02f2b68e1490bbaae8afeb6ebd837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:17 +0000
Subject: [PATCH 12/65] fix: decayed averages over long double times overran
 the result

---
 src/Ema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 8db6b93..193673f 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1993,7 +1993,7 @@ static EMA_BY_TWO_FUNC GetEmaByStep2(int timeType, EMA_FUNCTIONS func)
     case NPY_DOUBLE:
         return EmaByBase<T, double, double, K>::GetFunc(func);
     case NPY_LONGDOUBLE:
-        return EmaByBase<T, long double, long double, K>::GetFunc(func);
+        return EmaByBase<T, double, long double, K>::GetFunc(func);
     CASE_NPY_INT32:
         return EmaByBase<T, double, int32_t, K>::GetFunc(func);
     CASE_NPY_INT64:
-- 
2.43.0


From db5653e62ef372ebbeeb4eee07e1b7752f439726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:50 +0000
Subject: [PATCH 13/65] fix: GroupFromLexSort counts were shifted or undefined
 for base_index 0 and for strings with cutoffs

---
 src/Sort.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index 433027a..ed6ae0c 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3832,7 +3832,15 @@ static int64_t GroupIndexStep2String(void * pDataIn1, UINDEX arraySize1, UINDEX
     UINDEX curGroup = 0;
 
     // Invalid bin init when base_index is 1
-    pCountOut[0] = 0;
+    if (base_index == 0)
+    {
+        // SHIFT countout (no invalid bin)
+        pCountOut--;
+    }
+    else
+    {
+        pCountOut[0] = 0;
+    }
 
     pFirstOut[0] = curIndex;
     pGroupOut[curIndex] = baseIndex;
@@ -4305,9 +4313,10 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
         uniqueCount++;
         PyArrayObject * countReduced =
             AllocateNumpyArray(1, (npy_intp *)&uniqueCount, sizeof(UINDEX) == 4 ? NPY_INT32 : NPY_INT64);
-        copySize = sizeof(UINDEX) * uniqueCount;
-        // reduced
-        memcpy(PyArray_BYTES(countReduced), pCountOut, copySize);
+        UINDEX * pCountReduced = (UINDEX *)PyArray_BYTES(countReduced);
+        // the counts start after the zero bin, which is always reserved (even when base_index = 0)
+        pCountReduced[0] = 0;
+        memcpy(pCountReduced + 1, base_index == 0 ? pCountOut : pCountOut + 1, copySize);
 
         Py_DecRef((PyObject *)first);
         Py_DecRef((PyObject *)count);
-- 
2.43.0


From e0b7263f9b27eb37729b78fc63d2db9cb73aea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 14/65] fix: MakeiNext wrapped row numbers for small key types
 and left rows outside the groups undefined

---
 src/MultiKey.cpp | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 521e72a..9536d0e 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -490,22 +490,23 @@ public:
 };
 
 //-------------------------------------------------------
-// Calculate inext from ikey, keep same dtype
+// Calculate inext from ikey
+// OUTTYPE is the same dtype as ikey or a wider one when it cannot hold every row number
 // if there is no next it will be the invalid
-template <typename KEYTYPE>
+template <typename KEYTYPE, typename OUTTYPE>
 void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pIndexArrayK, void * pNextArrayK)
 {
     KEYTYPE * pIndexArray = (KEYTYPE *)pIndexArrayK;
-    KEYTYPE * pNextArray = (KEYTYPE *)pNextArrayK;
+    OUTTYPE * pNextArray = (OUTTYPE *)pNextArrayK;
 
     // TODO: option to pass this in
     numUnique += GB_BASE_INDEX;
 
     // get the invalid for int8/16/32/64
-    KEYTYPE invalid = *(KEYTYPE *)GetInvalid<KEYTYPE>();
+    OUTTYPE invalid = *(OUTTYPE *)GetInvalid<OUTTYPE>();
 
-    int64_t size = sizeof(KEYTYPE) * numUnique;
-    KEYTYPE * pGroupArray = (KEYTYPE *)WORKSPACE_ALLOC(size);
+    int64_t size = sizeof(OUTTYPE) * numUnique;
+    OUTTYPE * pGroupArray = (OUTTYPE *)WORKSPACE_ALLOC(size);
 
     if (pGroupArray)
     {
@@ -524,7 +525,11 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
                 if (group >= 0 && group < numUnique)
                 {
                     pNextArray[i] = pGroupArray[group];
-                    pGroupArray[group] = (KEYTYPE)i;
+                    pGroupArray[group] = (OUTTYPE)i;
+                }
+                else
+                {
+                    pNextArray[i] = invalid;
                 }
             }
         }
@@ -537,7 +542,11 @@ void MakeNextKey(int64_t mode, int64_t numUnique, int64_t totalRows, void * pInd
                 if (group >= 0 && group < numUnique)
                 {
                     pNextArray[i] = pGroupArray[group];
-                    pGroupArray[group] = (KEYTYPE)i;
+                    pGroupArray[group] = (OUTTYPE)i;
+                }
+                else
+                {
+                    pNextArray[i] = invalid;
                 }
             }
         }
@@ -577,27 +586,37 @@ PyObject * MakeiNext(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, dtype);
+    int64_t arrlength = ArrayLength(ikey);
+
+    // a small key type may not be able to hold the row numbers
+    bool widen = (dtype == NPY_INT8 && arrlength > 128) || (dtype == NPY_INT16 && arrlength > 32768);
+
+    PyArrayObject * pReturnArray = AllocateLikeNumpyArray(ikey, widen ? NPY_INT32 : dtype);
 
     if (pReturnArray)
     {
-        int64_t arrlength = ArrayLength(ikey);
         void * pIKey = PyArray_BYTES(ikey);
         void * pOutKey = PyArray_BYTES(pReturnArray);
 
         switch (PyArray_ITEMSIZE(ikey))
         {
         case 1:
-            MakeNextKey<int8_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            if (widen)
+                MakeNextKey<int8_t, int32_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            else
+                MakeNextKey<int8_t, int8_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
         case 2:
-            MakeNextKey<int16_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            if (widen)
+                MakeNextKey<int16_t, int32_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            else
+                MakeNextKey<int16_t, int16_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
         case 4:
-            MakeNextKey<int32_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            MakeNextKey<int32_t, int32_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
         case 8:
-            MakeNextKey<int64_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
+            MakeNextKey<int64_t, int64_t>(mode, unique_rows, arrlength, pIKey, pOutKey);
             break;
 
         default:
-- 
2.43.0


From f9bf569250a7e19c5fbd100c0ac32bc25fd3fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 15/65] fix: BinCount and GroupFromBinCount crashed on
 unsupported key types

---
 src/MultiKey.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 9536d0e..2b77de7 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -2113,6 +2113,14 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // Find the routine first since not every ikey dtype has one
+    MAKE_I_GROUP pMakeIGroup = GetMakeIGroup(iKeyType, outdtype);
+    if (! pMakeIGroup)
+    {
+        PyErr_Format(PyExc_ValueError, "GroupFromBinCount: ikey must be int8/16/32/64");
+        return NULL;
+    }
+
     outiGroup = AllocateNumpyArray(1, (npy_intp *)&totalRows, outdtype);
     outiFirstGroup = AllocateNumpyArray(1, (npy_intp *)&totalUnique, outdtype);
 
@@ -2156,8 +2164,6 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         //
         // Now build the igroup
         //
-        MAKE_I_GROUP pMakeIGroup = GetMakeIGroup(iKeyType, outdtype);
-
         if (! g_cMathWorker->NoThreading && totalRows > 32000)
         {
             int64_t cores = 0;
@@ -2462,6 +2468,14 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         outdtype = NPY_INT64;
     }
 
+    // Get the binning function
+    BIN_COUNT pBinFunc = InternalGetBinFunc(iKeyType, outdtype);
+    if (! pBinFunc)
+    {
+        PyErr_Format(PyExc_ValueError, "BinCount: ikey must be int8/16/32/64");
+        return NULL;
+    }
+
     // Allocate nCountGroup
     outArray = AllocateNumpyArray(1, (npy_intp *)&unique_rows, outdtype);
 
@@ -2471,9 +2485,6 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         void * pnCountGroup = PyArray_BYTES(outArray);
         int64_t itemSize = PyArray_ITEMSIZE(outArray);
 
-        // Get the binning function
-        BIN_COUNT pBinFunc = InternalGetBinFunc(iKeyType, outdtype);
-
         // TJD October 2019
         // Testing this routine with 800,000 uniques on 2M to 200M
         // multithreading did not make this run faster under some circumstance.
-- 
2.43.0


From bea4744e3e91853e9542b45f03d158fece1e81e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 16/65] fix: integer remainder and floor division raised SIGFPE
 for a divisor of 0 or -1

---
 src/BasicMath.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index d3271b3..de44ab6 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -297,6 +297,10 @@ static const inline T FloorDivOp(T x, T y)
 {
     if (y != 0)
     {
+        // the quotient of the smallest integer and -1 wraps
+        if (std::is_signed<T>::value && y == (T)-1)
+            return (T)(0 - (uint64_t)x);
+
         if ((x < 0) == (y < 0))
             return x / y;
 
@@ -337,6 +341,9 @@ static const inline float FloorDivOp(float x, float y)
 template <typename T>
 static const inline T ModOp(T x, T y)
 {
+    // as in numpy, the remainder of dividing by 0 (and by -1) is 0
+    if (y == 0 || (std::is_signed<T>::value && y == (T)-1))
+        return 0;
     return x % y;
 }
 template <typename T>
-- 
2.43.0


From 890a22899a2f02f7cf37e5b60a95e17be3416ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 17/65] fix: binary operators read multi-dimensional views with
 gaps or mismatched shapes as one block

---
 src/BasicMath.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index de44ab6..e92c74c 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2598,6 +2598,11 @@ public:
             {
                 return false;
             }
+            // Arrays with more dimensions are walked as one block of memory
+            if (ndim1 > 1 && ! (PyArray_FLAGS(inArr) & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)))
+            {
+                return false;
+            }
 
             // If expecting a specific length, check for that
             if (expectedLength && len1 != expectedLength)
@@ -2659,6 +2664,11 @@ public:
             {
                 return false;
             }
+            // Arrays with more dimensions are walked as one block of memory
+            if (ndim2 > 1 && ! (PyArray_FLAGS(inArr2) & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)))
+            {
+                return false;
+            }
 
             // If expecting a specific length, check for that
             if (expectedLength && len2 != expectedLength)
@@ -2788,6 +2798,14 @@ public:
             }
             else
             {
+                // Same length: the shapes and memory order must also match (otherwise numpy broadcasts or raises)
+                if ((ndim1 > 1 || ndim2 > 1) &&
+                    (! PyArray_SAMESHAPE(inArr, inArr2) ||
+                     ! (PyArray_FLAGS(inArr) & PyArray_FLAGS(inArr2) & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS))))
+                {
+                    return false;
+                }
+
                 // Check if we need to upcast one or both of the arrays
                 // bool, NPY_INT8, NPY_UINT8
                 if (! CheckUpcast())
@@ -2847,6 +2865,16 @@ public:
                     return nullptr;
                 }
 
+                PyArrayObject * shaped = len1 >= len2 ? inArr : inArr2;
+                if (shaped && (PyArray_NDIM((PyArrayObject *)outputObject) > 1 || PyArray_NDIM(shaped) > 1) &&
+                    (! PyArray_SAMESHAPE((PyArrayObject *)outputObject, shaped) ||
+                     ! (PyArray_FLAGS((PyArrayObject *)outputObject) & PyArray_FLAGS(shaped) &
+                        (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS))))
+                {
+                    LOGGING("Punting because output array has a different shape or memory order\n");
+                    return nullptr;
+                }
+
                 // TJD: since code like this is possible
                 // z=rc.addi32(a,b,c)
                 // Now z and c point to the same object, thus we must increment the ref
-- 
2.43.0


From 7c119881c9ef7297b5acf8dcba0b1b9bf6b84e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 18/65] fix: uint64 with a signed one-element array met in
 float32 instead of float64

---
 src/RipTide.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index dd43761..32a292d 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1965,8 +1965,8 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
                             {
                                 if (convertType1 == NPY_LONG || convertType1 == NPY_ULONG)
                                 {
-                                    pRow->dtype1 = convertType1 + 3;
-                                    pRow->dtype2 = convertType1 + 3;
+                                    pRow->dtype1 = NPY_FLOAT64;
+                                    pRow->dtype2 = NPY_FLOAT64;
                                 }
                             }
                         }
@@ -2024,8 +2024,8 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
                                 {
                                     if (convertType2 == NPY_LONG || convertType2 == NPY_ULONG)
                                     {
-                                        pRow->dtype1 = convertType2 + 3;
-                                        pRow->dtype2 = convertType2 + 3;
+                                        pRow->dtype1 = NPY_FLOAT64;
+                                        pRow->dtype2 = NPY_FLOAT64;
                                     }
                                 }
                             }
-- 
2.43.0


From afaf2a775ed6874e876120c32f7765d9e791d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 19/65] fix: bitwise and-not with a scalar read past the scalar

---
 src/BasicMath.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index e92c74c..de65c2f 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -914,6 +914,11 @@ inline void SimpleMathOpFast(void * pDataIn1X, void * pDataIn2X, void * pDataOut
 template <typename T, typename U256, const T MATH_OP(T, T), const U256 MATH_OP256(U256, U256)>
 inline void SimpleMathOpFastReverse(void * pDataIn1X, void * pDataIn2X, void * pDataOutX, int64_t datalen, int32_t scalarMode)
 {
+    // a scalar changes sides as well
+    if (scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR)
+        scalarMode = SCALAR_MODE::SECOND_ARG_SCALAR;
+    else if (scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR)
+        scalarMode = SCALAR_MODE::FIRST_ARG_SCALAR;
     return SimpleMathOpFast<T, U256, MATH_OP, MATH_OP256>(pDataIn2X, pDataIn1X, pDataOutX, datalen, scalarMode);
 }
 
-- 
2.43.0


From b8d981040aa887d685fa43eb719d5c743cd590ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 20/65] fix: integer scalars beyond int64 were taken as -1 or
 negative

---
 src/RipTide.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 32a292d..3df613e 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1009,7 +1009,7 @@ bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest
     CASE_NPY_UINT64:
 
         value = (int64_t) * (uint64_t *)pInput;
-        fvalue = (double)value;
+        fvalue = (double)*(uint64_t *)pInput;
         break;
     CASE_NPY_INT64:
 
@@ -1145,6 +1145,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
             int overflow = 0;
             int64_t value;
             uint64_t value2;
+            double fvalue;
 
             if (! isNumpyScalarInteger)
             {
@@ -1163,6 +1164,28 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 {
                     value2 = (uint64_t)value;
                 }
+
+                fvalue = (double)value;
+                if (overflow != 0)
+                {
+                    // beyond int64: only a float, or (when positive) uint64, might hold the value
+                    fvalue = PyLong_AsDouble(inObject1);
+                    bool fits = ! PyErr_Occurred();
+                    if (fits && numpyOutType <= NPY_ULONGLONG)
+                    {
+                        fits = (numpyOutType == NPY_ULONG || numpyOutType == NPY_ULONGLONG) && overflow > 0;
+                        if (fits)
+                        {
+                            PyLong_AsUnsignedLongLong(inObject1);
+                            fits = ! PyErr_Occurred();
+                        }
+                    }
+                    if (! fits)
+                    {
+                        PyErr_Clear();
+                        return false;
+                    }
+                }
             }
             else
             {
@@ -1178,6 +1201,7 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
 
                     PyArray_CastScalarToCtype(inObject1, &value, g_pDescrLongLong);
                     PyArray_CastScalarToCtype(inObject1, &value2, g_pDescrULongLong);
+                    fvalue = PyArray_IsScalar(inObject1, UnsignedInteger) ? (double)value2 : (double)value;
                 }
                 else
                 {
@@ -1219,10 +1243,10 @@ bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t numpyOu
                 pDest->ci.i2 = _mm_set1_epi64x(value2);
                 break;
             case NPY_FLOAT32:
-                pDest->s = _mm256_set1_ps((float)value);
+                pDest->s = _mm256_set1_ps((float)fvalue);
                 break;
             case NPY_FLOAT64:
-                pDest->d = _mm256_set1_pd((double)value);
+                pDest->d = _mm256_set1_pd(fvalue);
                 break;
             default:
                 printf("unknown long scalar type in convertScalarObject %d\n", numpyOutType);
-- 
2.43.0


From 87be31eeb74301c531bf59d40e9b82802d923d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 21/65] fix: comparing uint64 arrays with negative scalars (and
 int64 with large unsigned ones) wrapped the scalar

---
 src/BasicMath.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index de65c2f..ad6f840 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -2197,6 +2197,9 @@ public:
                     LOGGING("Getting upcast %d %d, result %d  convert:%d\n", dtype, scalar_dtype, result, convertType1);
                     if (result)
                     {
+                        // comparisons leave int64 and uint64 alone, but uint64 cannot hold a negative scalar
+                        if (issigned && (convertType1 == NPY_ULONG || convertType1 == NPY_ULONGLONG))
+                            return NPY_FLOAT64;
                         return convertType1;
                     }
                 }
@@ -2249,6 +2252,17 @@ public:
                 bool result = GetUpcastType(dtype, scalarType, convertType1, convertType2, funcNumber);
                 if (result)
                 {
+                    // comparisons leave int64 and uint64 alone, but the array's type might not hold the scalar
+                    if (convertType1 != convertType2 && convertType1 <= NPY_ULONGLONG)
+                    {
+                        // the 64-bit pattern is negative for a negative scalar and for an unsigned one beyond int64
+                        PyArray_Descr * pInt64 = PyArray_DescrFromType(NPY_INT64);
+                        int64_t value = 0;
+                        PyArray_CastScalarToCtype(scalarObject, &value, pInt64);
+                        Py_DECREF(pInt64);
+                        if (value < 0)
+                            return NPY_FLOAT64;
+                    }
                     return convertType1;
                 }
             }
-- 
2.43.0


From 3e11e5500ab7491b6975477d92e6b252787362ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 22/65] fix: comparing uint64 with int64 ignored the sign for
 equality and for a scalar first operand

---
 src/Compare.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Compare.cpp b/src/Compare.cpp
index d9c0626..4718c40 100644
--- a/src/Compare.cpp
+++ b/src/Compare.cpp
@@ -953,6 +953,13 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
     *wantedOutType = NPY_BOOL;
     int mainType = scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR ? numpyInType2 : numpyInType1;
 
+    // int64 with uint64 (not upcast): the comparison is chosen by the first operand, scalar or not
+    if (numpyInType1 >= NPY_LONG && numpyInType1 <= NPY_ULONGLONG && numpyInType2 >= NPY_LONG && numpyInType2 <= NPY_ULONGLONG &&
+        (numpyInType1 & 1) != (numpyInType2 & 1))
+    {
+        mainType = numpyInType1;
+    }
+
     LOGGING("Comparison maintype %d for func %d  inputs: %d %d\n", mainType, func, numpyInType1, numpyInType2);
 
     // NOTE: Intel on Nans
@@ -1091,11 +1098,10 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
         {
             switch (func)
             {
-                // For equal, not equal the sign does not matter
             case MATH_OPERATION::CMP_EQ:
-                return CompareAny<int64_t, COMP_EQ>;
+                return CompareAny<uint64_t, COMP_EQ_uint64_t>;
             case MATH_OPERATION::CMP_NE:
-                return CompareAny<int64_t, COMP_NE>;
+                return CompareAny<uint64_t, COMP_NE_uint64_t>;
             case MATH_OPERATION::CMP_GT:
                 return CompareAny<uint64_t, COMP_GT_uint64_t>;
             case MATH_OPERATION::CMP_GTE:
-- 
2.43.0


From a3a129a0d3167815a5a07c71da32cbc943be6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 23/65] fix: unary operators mixed up elements of
 multi-dimensional views and of outputs in another order

---
 src/RipTide.cpp  | 43 ++++++++++++++++++--------------------
 src/UnaryOps.cpp | 54 ++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 72 insertions(+), 25 deletions(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 3df613e..1077bb2 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -2336,37 +2336,34 @@ int GetStridesAndContig(PyArrayObject const * inArray, int & ndim, int64_t & str
     stride = PyArray_ITEMSIZE(inArray);
     int direction = 0;
     ndim = PyArray_NDIM(inArray);
-    if (ndim > 0)
+
+    // the strides of dimensions of length one do not matter
+    int first = 0;
+    while (first < ndim && PyArray_DIM(inArray, first) <= 1)
+        first++;
+    int last = ndim - 1;
+    while (last > first && PyArray_DIM(inArray, last) <= 1)
+        last--;
+
+    if (first < ndim)
     {
-        if (PyArray_DIM(inArray, 0) > 1)
-        {
-            stride = PyArray_STRIDE(inArray, 0);
-        }
-        if (ndim > 1)
+        stride = PyArray_STRIDE(inArray, first);
+        if (last > first)
         {
             // at least two strides
-            int ndims = PyArray_NDIM(inArray);
-            int64_t lastStride = PyArray_ITEMSIZE(inArray);
-            if (PyArray_DIM(inArray, ndims - 1) > 1)
-            {
-                lastStride = PyArray_STRIDE(inArray, ndims - 1);
-            }
-            if (lastStride == stride)
-            {
-                // contiguous with one of the dimensions having length 1
-            }
-            else if (std::abs(lastStride) < std::abs(stride))
+            int64_t lastStride = PyArray_STRIDE(inArray, last);
+            if (std::abs(lastStride) <= std::abs(stride))
             {
                 // Row Major - 'C' Style
                 // work backwards
-                int currentdim = ndims - 1;
+                int currentdim = last;
                 int64_t curStrideLen = lastStride;
                 while (currentdim != 0)
                 {
                     curStrideLen *= PyArray_DIM(inArray, currentdim);
                     LOGGING("'C' %lld vs %lld  dim: %lld  stride: %lld \n", curStrideLen, PyArray_STRIDE(inArray, currentdim - 1),
                             PyArray_DIM(inArray, currentdim - 1), lastStride);
-                    if (PyArray_STRIDE(inArray, currentdim - 1) != curStrideLen)
+                    if (PyArray_DIM(inArray, currentdim - 1) != 1 && PyArray_STRIDE(inArray, currentdim - 1) != curStrideLen)
                         break;
                     currentdim--;
                 }
@@ -2376,20 +2373,20 @@ int GetStridesAndContig(PyArrayObject const * inArray, int & ndim, int64_t & str
             else
             {
                 // Col Major - 'F' Style
-                int currentdim = 0;
+                int currentdim = first;
                 int64_t curStrideLen = stride;
-                while (currentdim != (ndims - 1))
+                while (currentdim != (ndim - 1))
                 {
                     curStrideLen *= PyArray_DIM(inArray, currentdim);
                     LOGGING("'F' %lld vs %lld  dim:  %lld   stride: %lld \n", curStrideLen,
                             PyArray_STRIDE(inArray, currentdim + 1), PyArray_DIM(inArray, currentdim + 1), stride);
-                    if (PyArray_STRIDE(inArray, currentdim + 1) != curStrideLen)
+                    if (PyArray_DIM(inArray, currentdim + 1) != 1 && PyArray_STRIDE(inArray, currentdim + 1) != curStrideLen)
                         break;
                     currentdim++;
                 }
                 // think!
                 // direction = (ndims - 1) - currentdim;
-                direction = currentdim - (ndims - 1);
+                direction = currentdim - (ndim - 1);
                 // contig = currentdim == (ndims - 1);
             }
         }
diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index f552b38..08de733 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2477,6 +2477,42 @@ static bool UnaryThreadCallbackStrided(struct stMATH_WORKER_ITEM * pstWorkerItem
     return didSomeWork;
 }
 
+//------------------------------------------------------------------------------
+// Returns true when both arrays have the same shape and both are row major or both are column major,
+// so that walking each one in its own memory order visits the same elements.
+// Assumes GetStridesAndContig accepted both arrays.
+static bool HasSameElementOrder(PyArrayObject * inArray, PyArrayObject * outArray)
+{
+    const int ndim = PyArray_NDIM(inArray);
+    if (ndim != PyArray_NDIM(outArray))
+    {
+        return false;
+    }
+
+    // the strides of dimensions of length one do not matter
+    int first = -1;
+    int last = -1;
+    for (int i = 0; i < ndim; i++)
+    {
+        if (PyArray_DIM(inArray, i) != PyArray_DIM(outArray, i))
+        {
+            return false;
+        }
+        if (PyArray_DIM(inArray, i) > 1)
+        {
+            first = first < 0 ? i : first;
+            last = i;
+        }
+    }
+    if (first == last)
+    {
+        return true;
+    }
+    const bool inRowMajor = std::abs(PyArray_STRIDE(inArray, last)) <= std::abs(PyArray_STRIDE(inArray, first));
+    const bool outRowMajor = std::abs(PyArray_STRIDE(outArray, last)) <= std::abs(PyArray_STRIDE(outArray, first));
+    return inRowMajor == outRowMajor;
+}
+
 //------------------------------------------------------------------------------
 // Main routine for unary operations
 // if numpyOutType is -1, then outObject1 is IGNORED
@@ -2506,6 +2542,13 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
             PyArrayObject * outputArray = (ndim <= 1) ? AllocateNumpyArray(1, (npy_intp *)&len, wantedOutputType) :
                                                         AllocateLikeNumpyArray(inArray, wantedOutputType);
 
+            if (outputArray && ndim > 1 && ! HasSameElementOrder(inArray, outputArray))
+            {
+                // punt to numpy
+                Py_DECREF(outputArray);
+                RETURN_NONE;
+            }
+
             if (outputArray)
             {
                 stMATH_WORKER_ITEM * pWorkItem = g_cMathWorker->GetWorkItem(len);
@@ -2601,6 +2644,14 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
             Py_INCREF(outObject1);
         }
 
+        if ((ndim > 1 || PyArray_NDIM(outputArray) > 1) && ! HasSameElementOrder(inArray, outputArray))
+        {
+            LOGGING("input and output are laid out differently\n");
+            // punt to numpy
+            Py_DECREF(outputArray);
+            RETURN_NONE;
+        }
+
         void * pDataIn = PyArray_BYTES(inArray);
         void * pDataOut = PyArray_BYTES(outputArray);
 
@@ -2669,8 +2720,7 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
             {
                 // Col Major 2dim like array with output being fully contiguous
                 int64_t innerLen = 1;
-                directionIn = -directionIn;
-                for (int i = 0; i < directionIn; i++)
+                for (int i = 0; i < (ndim - 1); i++)
                 {
                     innerLen *= PyArray_DIM(inArray, i);
                 }
-- 
2.43.0


From 19bc6a153e26cdfdd55a213ee0cc507a33291e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 24/65] fix: round gave halves away from zero or to even
 depending on the array's alignment

---
 src/UnaryOps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 08de733..5f8a30a 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -292,17 +292,17 @@ static const inline bool ISNANORZERO_OP(T x)
 template <typename T>
 static const inline long double ROUND_OP(long double x)
 {
-    return roundl(x);
+    return nearbyintl(x);
 }
 template <typename T>
 static const inline double ROUND_OP(double x)
 {
-    return round(x);
+    return nearbyint(x);
 }
 template <typename T>
 static const inline float ROUND_OP(float x)
 {
-    return roundf(x);
+    return nearbyintf(x);
 }
 
 template <typename T>
-- 
2.43.0


From 57fad3fb9f283ed51496436e583a1ce39857a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 25/65] fix: roots, logarithms and exponentials took uint64
 values beyond int64 as negative

---
 src/UnaryOps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 5f8a30a..26d080e 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2060,7 +2060,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_SQRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_SQRT<int64_t>;
+            return UnaryOpSlowDouble_SQRT<uint64_t>;
         case NPY_DOUBLE:
             return UnaryOpSlow_SQRT<double>;
         case NPY_LONGDOUBLE:
@@ -2087,7 +2087,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_CBRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_CBRT<int64_t>;
+            return UnaryOpSlowDouble_CBRT<uint64_t>;
         }
         break;
 
@@ -2116,7 +2116,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG<int64_t>;
+            return UnaryOpSlowDouble_LOG<uint64_t>;
         }
         break;
 
@@ -2145,7 +2145,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG10<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG10<int64_t>;
+            return UnaryOpSlowDouble_LOG10<uint64_t>;
         }
         break;
 
@@ -2174,7 +2174,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP<int64_t>;
+            return UnaryOpSlowDouble_EXP<uint64_t>;
         }
         break;
 
@@ -2203,7 +2203,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP2<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP2<int64_t>;
+            return UnaryOpSlowDouble_EXP2<uint64_t>;
         }
         break;
 
-- 
2.43.0


From f3ef8f2fec9c04b96fa6a44dd7826d3d41f1e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 26/65] fix: sums and variances of long arrays became NaN when
 they did not fit into an int64

---
 src/Reduce.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 2ff168c..3832a83 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -548,14 +548,11 @@ void CMathWorker::WorkScatterGatherCall(FUNCTION_LIST * anyScatterGatherCall, vo
                 pstScatterGatherFunc->resultOutInt64 =
                     riptide::add(pstScatterGatherFunc->resultOutInt64, pZeroArray[i].resultOutInt64);
 
+                // NOTE: the double is NaN when an invalid was found; the integer may also have overflowed
                 if (! invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
                 {
                     pstScatterGatherFunc->resultOutInt64 = invalid_for_type<int64_t>::value;
                 }
-                else if (! invalid_for_type<int64_t>::is_valid(pstScatterGatherFunc->resultOutInt64))
-                {
-                    pstScatterGatherFunc->resultOut = invalid_for_type<double>::value;
-                }
             }
         }
         WORKSPACE_FREE(pWorkSpace);
-- 
2.43.0


From 2ca317c0a4ba05e56e099dfca2a48e4d7f4a9c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 27/65] fix: reducing multi-dimensional views read memory
 outside the view and zero-dimensional arrays crashed

---
 src/Reduce.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 3832a83..65fdef2 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3392,13 +3392,22 @@ PyObject * Reduce(PyObject * self, PyObject * args)
     if (IsFastArrayOrNumpy(inArr1))
     {
         // make sure not strided -- we don't currently handle those
-        if (PyArray_DIM(inArr1, 0) <= 1 || PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1))
+        if (PyArray_NDIM(inArr1) == 1 ?
+                (PyArray_DIM(inArr1, 0) <= 1 || PyArray_STRIDE(inArr1, 0) == PyArray_ITEMSIZE(inArr1)) :
+                (PyArray_IS_C_CONTIGUOUS(inArr1) || PyArray_IS_F_CONTIGUOUS(inArr1)))
         {
             PyObject * object2 = PyTuple_GET_ITEM(args, 1);
             if (PyLong_Check(object2))
             {
                 int64_t func = PyLong_AsLongLong(object2);
 
+                // positions are counted in row major order
+                if (func >= REDUCE_FUNCTIONS::REDUCE_ARGMIN && func <= REDUCE_FUNCTIONS::REDUCE_NANARGMAX &&
+                    ! PyArray_IS_C_CONTIGUOUS(inArr1))
+                {
+                    Py_RETURN_NONE;
+                }
+
                 // possible TODO: wrap result back into np scalar type
                 return ReduceInternal(inArr1, (REDUCE_FUNCTIONS)func, ddof);
             }
-- 
2.43.0


From ca4bce3bffdff3a0d935c191b1a9aee7f1325bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 28/65] fix: sums of 64-bit integers lost their low bits beyond
 2^53

---
 src/Reduce.cpp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 65fdef2..1442704 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -546,7 +546,7 @@ void CMathWorker::WorkScatterGatherCall(FUNCTION_LIST * anyScatterGatherCall, vo
                 pstScatterGatherFunc->lenOut += pZeroArray[i].lenOut;
                 pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, pZeroArray[i].resultOut);
                 pstScatterGatherFunc->resultOutInt64 =
-                    riptide::add(pstScatterGatherFunc->resultOutInt64, pZeroArray[i].resultOutInt64);
+                    (int64_t)((uint64_t)pstScatterGatherFunc->resultOutInt64 + (uint64_t)pZeroArray[i].resultOutInt64);
 
                 // NOTE: the double is NaN when an invalid was found; the integer may also have overflowed
                 if (! invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut))
@@ -2175,10 +2175,13 @@ class ReduceSum final
         T * pIn = (T *)pDataIn;
         T * pEnd;
         double result = 0;
+        // integers are also summed up exactly
+        uint64_t exact = 0;
 
         if (pstScatterGatherFunc->inputType == NPY_BOOL)
         {
-            result = (double)SumBooleanMask((int8_t *)pDataIn, length);
+            exact = SumBooleanMask((int8_t *)pDataIn, length);
+            result = (double)exact;
         }
         else
         {
@@ -2193,12 +2196,25 @@ class ReduceSum final
                     break;
                 }
                 result += static_cast<double>(value);
+                if constexpr (std::is_integral_v<T>)
+                {
+                    exact += static_cast<uint64_t>(value);
+                }
             }
         }
 
         pstScatterGatherFunc->lenOut += length;
         pstScatterGatherFunc->resultOut = riptide::add(pstScatterGatherFunc->resultOut, result);
-        pstScatterGatherFunc->resultOutInt64 = riptide::cast<int64_t>(pstScatterGatherFunc->resultOut);
+        if constexpr (std::is_integral_v<T>)
+        {
+            pstScatterGatherFunc->resultOutInt64 = riptide::invalid_for_type<double>::is_valid(pstScatterGatherFunc->resultOut) ?
+                                                       (int64_t)((uint64_t)pstScatterGatherFunc->resultOutInt64 + exact) :
+                                                       riptide::invalid_for_type<int64_t>::value;
+        }
+        else
+        {
+            pstScatterGatherFunc->resultOutInt64 = riptide::cast<int64_t>(pstScatterGatherFunc->resultOut);
+        }
         return result;
     }
 
@@ -2615,6 +2631,8 @@ class ReduceNanSum final
     static double non_vector(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
         double result = 0;
+        // integers are also summed up exactly
+        uint64_t exact = 0;
         int64_t count = 0;
         T * pIn = (T *)pDataIn;
 
@@ -2623,12 +2641,23 @@ class ReduceNanSum final
             if (invalid_for_type<T>::is_valid(pIn[i]))
             {
                 result += pIn[i];
+                if constexpr (std::is_integral_v<T>)
+                {
+                    exact += static_cast<uint64_t>(pIn[i]);
+                }
                 count += 1;
             }
         }
         pstScatterGatherFunc->lenOut += count;
         pstScatterGatherFunc->resultOut += result;
-        pstScatterGatherFunc->resultOutInt64 += (int64_t)result;
+        if constexpr (std::is_integral_v<T>)
+        {
+            pstScatterGatherFunc->resultOutInt64 = (int64_t)((uint64_t)pstScatterGatherFunc->resultOutInt64 + exact);
+        }
+        else
+        {
+            pstScatterGatherFunc->resultOutInt64 += (int64_t)result;
+        }
         return result;
     }
 
-- 
2.43.0


From 12cc6d2e959b9665f13e0381b91ce4192d316cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 29/65] fix: sorting strings overran the result and strided
 arrays were sorted as if contiguous

---
 src/Sort.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/Sort.cpp b/src/Sort.cpp
index ed6ae0c..1c23402 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -2910,6 +2910,20 @@ static void SortArray(void * pDataIn1, int64_t arraySize1, int32_t arrayType1, S
     }
 }
 
+//===============================================================================
+// Values sorted as fixed size numbers. Sets an exception and returns false for any other type.
+static bool IsSortableType(PyArrayObject * inArr1)
+{
+    int32_t arrayType1 = PyArray_TYPE(inArr1);
+
+    if (arrayType1 > NPY_LONGDOUBLE)
+    {
+        PyErr_Format(PyExc_TypeError, "Sort does not understand type %d", arrayType1);
+        return false;
+    }
+    return true;
+}
+
 //===============================================================================
 // Pass in a numpy array, it will be sorted in place
 // the same array is returned
@@ -2922,6 +2936,15 @@ PyObject * SortInPlace(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!i", &PyArray_Type, &inArr1, &sortMode))
         return NULL;
 
+    if (! IsSortableType(inArr1))
+        return NULL;
+
+    if (! PyArray_IS_C_CONTIGUOUS(inArr1) && ! PyArray_IS_F_CONTIGUOUS(inArr1))
+    {
+        PyErr_Format(PyExc_ValueError, "SortInPlace array must be contiguous");
+        return NULL;
+    }
+
     int32_t arrayType1 = PyArray_TYPE(inArr1);
     int ndim = PyArray_NDIM(inArr1);
     npy_intp * dims = PyArray_DIMS(inArr1);
@@ -3036,6 +3059,9 @@ PyObject * Sort(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!i", &PyArray_Type, &inArr1, &sortMode))
         return NULL;
 
+    if (! IsSortableType(inArr1))
+        return NULL;
+
     int32_t arrayType1 = PyArray_TYPE(inArr1);
     int ndim = PyArray_NDIM(inArr1);
     npy_intp * dims = PyArray_DIMS(inArr1);
@@ -3051,12 +3077,14 @@ PyObject * Sort(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    void * pDataIn1 = PyArray_BYTES(inArr1);
     void * pDataOut1 = PyArray_BYTES(duplicateArray);
 
-    int64_t itemSize = NpyItemSize((PyObject *)inArr1);
-
-    memcpy(pDataOut1, pDataIn1, arraySize1 * itemSize);
+    // the input may have strides
+    if (PyArray_CopyInto(duplicateArray, inArr1) < 0)
+    {
+        Py_DecRef((PyObject *)duplicateArray);
+        return NULL;
+    }
 
     SORT_MODE mode = (SORT_MODE)sortMode;
 
-- 
2.43.0


From 92a4d32057492308861d71ba5e56a62148f1e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 30/65] fix: ReIndex of unaligned 16-byte items crashed

An array of 16-byte items is aligned for its element type only, and was
loaded with aligned vector loads.
---
 src/Bins.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 0959de3..c6e84b8 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -11,6 +11,12 @@
 //--------------------------------------------------------------------------
 typedef void (*REINDEXCALLBACK)(void * pDataOut, void * pDataIn, void * pIndex1, int64_t indexLen, int64_t itemSize);
 
+// A 16 byte item.  Numpy does not align such items to 16 bytes.
+struct Item16
+{
+    char bytes[16];
+};
+
 //===============================================================================================================
 //--------------------------------------------------------
 // T is the type of the index -- usually int32_t or INT64
@@ -70,7 +76,7 @@ REINDEXCALLBACK ReIndexDataStep1(int64_t itemSize)
     case 8:
         return ReIndexData<T, double>;
     case 16:
-        return ReIndexData<T, __m128>;
+        return ReIndexData<T, Item16>;
     default:
         return ReIndexData<T>;
     }
-- 
2.43.0


From 8fd12560112755e4d3b668cc49d54f13b8c4208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 31/65] fix: indexing by unsigned or strided indexes and masks
 was wrong or overran the result

Unsigned index arrays were read as signed, variable width items advanced the
output twice, threaded and strided copies used the stride of the values for the
(contiguous) result, BooleanToFancy ignored the stride of the mask, views that no
single stride covers in C order were taken as contiguous, 16-byte items were
loaded as aligned vectors, and the default of strings was read past its end.
---
 src/Merge.cpp | 232 ++++++++++++++++++++++++++++----------------------
 1 file changed, 132 insertions(+), 100 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 1e9c356..e2d3040 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -5,6 +5,7 @@
 #include "Convert.h"
 
 #include <algorithm>
+#include <vector>
 
 // for _pext_u64
 #if defined(__GNUC__) || defined(__clang__)
@@ -15,6 +16,27 @@
 //#define LOGGING printf
 #define LOGGING(...)
 
+//---------------------------------------------------------
+// Returns true when one stride visits the elements of the array in C order.
+static bool OneStride(PyArrayObject * inArray, int64_t & stride)
+{
+    int ndim = 0;
+    if (GetStridesAndContig(inArray, ndim, stride) != 0)
+        return false;
+    if (ndim > 1 && ArrayLength(inArray) > 1)
+    {
+        // the last dimension (of more than one element) must be the fastest
+        int64_t expected = stride;
+        for (int i = ndim - 1; i >= 0; i--)
+        {
+            if (PyArray_DIM(inArray, i) > 1 && PyArray_STRIDE(inArray, i) != expected)
+                return false;
+            expected *= PyArray_DIM(inArray, i);
+        }
+    }
+    return true;
+}
+
 /**
  * Count the number of 'True' (nonzero) 1-byte bool values in an array,
  * using an AVX2-based implementation.
@@ -253,35 +275,22 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
         return NULL;
     }
 
-    int ndimValue = 0;
-    int ndimBoolean = 0;
     int64_t strideValue = 0;
     int64_t strideBoolean = 0;
 
-    int result1 = GetStridesAndContig(aValues, ndimValue, strideValue);
-    int result2 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
-
-    // This logic is not quite correct, if the strides on all dimensions are the
-    // same, we can use this routine
-    if (result1 != 0)
+    if (! OneStride(aValues, strideValue))
     {
-        if (! PyArray_ISCONTIGUOUS(aValues))
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Dont know how to handle multidimensional "
-                         "value array for boolean index.");
-            return NULL;
-        }
+        PyErr_Format(PyExc_ValueError,
+                     "Dont know how to handle multidimensional "
+                     "value array for boolean index.");
+        return NULL;
     }
-    if (result2 != 0)
+    if (! OneStride(aIndex, strideBoolean))
     {
-        if (! PyArray_ISCONTIGUOUS(aIndex))
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Dont know how to handle multidimensional "
-                         "array used as boolean index.");
-            return NULL;
-        }
+        PyErr_Format(PyExc_ValueError,
+                     "Dont know how to handle multidimensional "
+                     "array used as boolean index.");
+        return NULL;
     }
 
     // if ( strideBoolean != 1) {
@@ -583,7 +592,7 @@ PyObject * BooleanIndexInternal(PyArrayObject * aValues, PyArrayObject * aIndex)
                                 if (*pBooleanMask++)
                                 {
                                     memcpy(pValuesOut, pValuesIn, itemSize);
-                                    pValuesOut += strideValues;
+                                    pValuesOut += itemSize;
                                 }
                                 pValuesIn += strideValues;
                             }
@@ -740,10 +749,13 @@ PyObject * BooleanSum(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    int ndimBoolean;
     int64_t strideBoolean;
 
-    int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
+    if (! OneStride(aIndex, strideBoolean))
+    {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional boolean array");
+        return NULL;
+    }
 
     int64_t * pChunkCount = NULL;
     int64_t chunks = BooleanCount(aIndex, &pChunkCount, strideBoolean);
@@ -758,6 +770,12 @@ PyObject * BooleanSum(PyObject * self, PyObject * args)
     return PyLong_FromSize_t(totalTrue);
 }
 
+// A 16 byte item.  Numpy does not align such items to 16 bytes.
+struct Item16
+{
+    char bytes[16];
+};
+
 //----------------------------------------------------
 // Consider:  C=A[B]   where A is a value array
 // C must be the same type as A (and is also a value array)
@@ -855,7 +873,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             *pDataOut =
                 // Make sure the item is in range
-                index >= 0 && index < valLength ? pValues[index] : defaultVal;
+                (uint64_t)index < (uint64_t)valLength ? pValues[index] : defaultVal;
             pIndex++;
             pDataOut++;
         }
@@ -866,11 +884,10 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
         while (pDataOut != pDataOutEnd)
         {
             const INDEX index = *pIndex;
-            // Make sure the item is in range; if the index is negative -- but
-            // otherwise still in range -- mimic Python's negative-indexing support.
-            if (index >= 0 && index < valLength)
+            // Make sure the item is in range
+            if ((uint64_t)index < (uint64_t)valLength)
             {
-                *pDataOut = *(VALUE *)((char *)pValues + (strideValue * index));
+                *pDataOut = *(VALUE *)((char *)pValues + (strideValue * (int64_t)index));
             }
             else
             {
@@ -990,9 +1007,9 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
-                pSrc = pValues + (itemSize * index);
+                pSrc = pValues + (itemSize * (int64_t)index);
             }
             else
             {
@@ -1014,7 +1031,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else
@@ -1024,9 +1040,9 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if ((uint64_t)index < (uint64_t)valLength)
             {
-                pSrc = pValues + (strideValue * index);
+                pSrc = pValues + (strideValue * (int64_t)index);
             }
             else
             {
@@ -1046,7 +1062,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
@@ -1102,7 +1117,8 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
         // work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is never strided
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING(
@@ -1142,7 +1158,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int8_t>;
         case 16:
-            return GetItemInt<__m128, int8_t>;
+            return GetItemInt<Item16, int8_t>;
         default:
             return GetItemIntVariable<int8_t>;
         }
@@ -1151,17 +1167,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int8_t>;
+            return GetItemUInt<int8_t, uint8_t>;
         case 2:
-            return GetItemUInt<int16_t, int8_t>;
+            return GetItemUInt<int16_t, uint8_t>;
         case 4:
-            return GetItemUInt<int32_t, int8_t>;
+            return GetItemUInt<int32_t, uint8_t>;
         case 8:
-            return GetItemUInt<int64_t, int8_t>;
+            return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<__m128, int8_t>;
+            return GetItemUInt<Item16, uint8_t>;
         default:
-            return GetItemUIntVariable<int8_t>;
+            return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -1177,7 +1193,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int16_t>;
         case 16:
-            return GetItemInt<__m128, int16_t>;
+            return GetItemInt<Item16, int16_t>;
         default:
             return GetItemIntVariable<int16_t>;
         }
@@ -1186,17 +1202,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int16_t>;
+            return GetItemUInt<int8_t, uint16_t>;
         case 2:
-            return GetItemUInt<int16_t, int16_t>;
+            return GetItemUInt<int16_t, uint16_t>;
         case 4:
-            return GetItemUInt<int32_t, int16_t>;
+            return GetItemUInt<int32_t, uint16_t>;
         case 8:
-            return GetItemUInt<int64_t, int16_t>;
+            return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<__m128, int16_t>;
+            return GetItemUInt<Item16, uint16_t>;
         default:
-            return GetItemUIntVariable<int16_t>;
+            return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -1212,7 +1228,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int32_t>;
         case 16:
-            return GetItemInt<__m128, int32_t>;
+            return GetItemInt<Item16, int32_t>;
         default:
             return GetItemIntVariable<int32_t>;
         }
@@ -1221,17 +1237,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int32_t>;
+            return GetItemUInt<int8_t, uint32_t>;
         case 2:
-            return GetItemUInt<int16_t, int32_t>;
+            return GetItemUInt<int16_t, uint32_t>;
         case 4:
-            return GetItemUInt<int32_t, int32_t>;
+            return GetItemUInt<int32_t, uint32_t>;
         case 8:
-            return GetItemUInt<int64_t, int32_t>;
+            return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<__m128, int32_t>;
+            return GetItemUInt<Item16, uint32_t>;
         default:
-            return GetItemUIntVariable<int32_t>;
+            return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1247,7 +1263,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int64_t>;
         case 16:
-            return GetItemInt<__m128, int64_t>;
+            return GetItemInt<Item16, int64_t>;
         default:
             return GetItemIntVariable<int64_t>;
         }
@@ -1256,17 +1272,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int64_t>;
+            return GetItemUInt<int8_t, uint64_t>;
         case 2:
-            return GetItemUInt<int16_t, int64_t>;
+            return GetItemUInt<int16_t, uint64_t>;
         case 4:
-            return GetItemUInt<int32_t, int64_t>;
+            return GetItemUInt<int32_t, uint64_t>;
         case 8:
-            return GetItemUInt<int64_t, int64_t>;
+            return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<__m128, int64_t>;
+            return GetItemUInt<Item16, uint64_t>;
         default:
-            return GetItemUIntVariable<int64_t>;
+            return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
@@ -1274,6 +1290,25 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
     return NULL;
 }
 
+//---------------------------------------------------------------------------
+// Store the default value, converted to an item of aValues, into pDefault
+// Returns false (and a python error is set) when it cannot be converted
+static bool FillWideDefault(PyObject * defaultValue, PyArrayObject * aValues, void * pDefault)
+{
+    PyArray_Descr * descr = PyArray_DESCR(aValues);
+    Py_INCREF(descr);
+    PyArrayObject * item = (PyArrayObject *)PyArray_FromAny(defaultValue, descr, 0, 0, NPY_ARRAY_CARRAY | NPY_ARRAY_FORCECAST, NULL);
+    if (! item)
+        return false;
+    bool single = ArrayLength(item) == 1;
+    if (single)
+        memcpy(pDefault, PyArray_BYTES(item), PyArray_ITEMSIZE(aValues));
+    else
+        PyErr_Format(PyExc_ValueError, "The default value must be a scalar");
+    Py_DECREF(item);
+    return single;
+}
+
 //---------------------------------------------------------------------------
 // Input:
 // Arg1: numpy array aValues (can be anything)
@@ -1327,37 +1362,16 @@ PyObject * MBGet(PyObject * self, PyObject * args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
-    int ndimValue;
-    int ndimIndex;
     int64_t strideValue = 0;
     int64_t strideIndex = 0;
 
-    int result1 = GetStridesAndContig(aValues, ndimValue, strideValue);
-    int result2 = GetStridesAndContig(aIndex, ndimIndex, strideIndex);
-
-    // This logic is not quite correct, if the strides on all dimensions are the
-    // same, we can use this routine
-    if (result1 != 0)
-    {
-        if (! PyArray_ISCONTIGUOUS(aValues))
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Dont know how to handle multidimensional array %d using "
-                         "index dtype: %d",
-                         numpyValuesType, numpyIndexType);
-            return NULL;
-        }
-    }
-    if (result2 != 0)
+    if (! OneStride(aValues, strideValue) || ! OneStride(aIndex, strideIndex))
     {
-        if (! PyArray_ISCONTIGUOUS(aIndex))
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Dont know how to handle multidimensional array %d using "
-                         "index dtype: %d",
-                         numpyValuesType, numpyIndexType);
-            return NULL;
-        }
+        PyErr_Format(PyExc_ValueError,
+                     "Dont know how to handle multidimensional array %d using "
+                     "index dtype: %d",
+                     numpyValuesType, numpyIndexType);
+        return NULL;
     }
 
     // printf("numpy types %d %d\n", numpyValuesType, numpyIndexType);
@@ -1389,8 +1403,20 @@ PyObject * MBGet(PyObject * self, PyObject * args)
                 // reserve a full 16 bytes for default in case we have oneS
                 _m256all tempDefault;
 
+                // Strings and records: a default as wide as the items
+                std::vector<char> wideDefault;
+                if (numpyValuesType >= NPY_STRING && numpyValuesType <= NPY_VOID)
+                {
+                    wideDefault.resize(aValueItemSize > 16 ? aValueItemSize : 16, 0);
+                    pDefault = wideDefault.data();
+                    if (defaultValue != Py_None && ! FillWideDefault(defaultValue, aValues, pDefault))
+                    {
+                        Py_DECREF(outArray);
+                        return NULL;
+                    }
+                }
                 // Check if a default value was passed in as third parameter
-                if (defaultValue != Py_None)
+                else if (defaultValue != Py_None)
                 {
                     bool result;
                     int64_t itemSize;
@@ -1504,10 +1530,13 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
-    int ndimBoolean;
     int64_t strideBoolean;
 
-    int result1 = GetStridesAndContig(aIndex, ndimBoolean, strideBoolean);
+    if (! OneStride(aIndex, strideBoolean))
+    {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle multidimensional boolean array");
+        return NULL;
+    }
 
     // if bothMode is set, will return fancy index for both True and False
     bool bothMode = GetKwargBoth(kwargs);
@@ -1586,6 +1615,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
             int64_t * pChunkCount;
             int64_t * pChunkCountFalse;
             int8_t * pBooleanMask;
+            int64_t strideBoolean;
             void * pValuesOut;
             int64_t totalTrue;
             int dtype;
@@ -1599,6 +1629,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
             int64_t chunkCount = callbackArg->pChunkCount[start / g_cMathWorker->WORK_ITEM_CHUNK];
             int8_t * pBooleanMask = callbackArg->pBooleanMask;
+            int64_t strideBoolean = callbackArg->strideBoolean;
             bool bothMode = callbackArg->bothMode;
 
             if (bothMode)
@@ -1617,7 +1648,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1637,7 +1668,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1657,7 +1688,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1670,7 +1701,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1685,6 +1716,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         stBTFCallback.pChunkCount = pChunkCount;
         stBTFCallback.pChunkCountFalse = pChunkCountFalse;
         stBTFCallback.pBooleanMask = (int8_t *)PyArray_BYTES(aIndex);
+        stBTFCallback.strideBoolean = strideBoolean;
         stBTFCallback.pValuesOut = (int64_t *)PyArray_BYTES(returnArray);
         stBTFCallback.dtype = dtype;
         stBTFCallback.totalTrue = totalTrue;
-- 
2.43.0


From 593f7ced7c1ac355b751906940add26c29252282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 32/65] fix: masked writes ignored the strides of their arrays
 and wrote False as invalid

SetItem and PutMask walked strided (and read-only) arrays as one writable block
of memory, PutMask stored the invalid of the destination for False, and crashed
on values numpy cannot convert.
---
 src/Convert.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d8df26c..76174c4 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3817,7 +3817,9 @@ PyObject * SetItem(PyObject * self, PyObject * args)
             // TODO: improvement when string itemsize is different length -- we can do
             // a custom string copy
             if (PyArray_NDIM(arr) == 1 && PyArray_ITEMSIZE(arr) > 0 && PyArray_NDIM(inValues) == 1 &&
-                PyArray_ITEMSIZE(inValues) == PyArray_ITEMSIZE(arr) && PyArray_TYPE(arr) == PyArray_TYPE(inValues))
+                PyArray_ITEMSIZE(inValues) == PyArray_ITEMSIZE(arr) && PyArray_TYPE(arr) == PyArray_TYPE(inValues) &&
+                PyArray_ISWRITEABLE(arr) && PyArray_IS_C_CONTIGUOUS(arr) && PyArray_IS_C_CONTIGUOUS(mask) &&
+                PyArray_IS_C_CONTIGUOUS(inValues))
             {
                 // Boolean path...
                 int arrType = PyArray_TYPE(mask);
@@ -3887,9 +3889,13 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
     // Try to convert value if we have to
     PyObject * value = PyTuple_GetItem(args, 2);
+    bool newValue{ false };
     if (! PyArray_Check(value))
     {
         value = PyArray_FromAny(value, NULL, 0, 0, NPY_ARRAY_ENSUREARRAY, NULL);
+        if (! value)
+            return NULL;
+        newValue = true;
     }
 
     if (PyArray_Check(arr) && PyArray_Check(mask) && PyArray_Check(value))
@@ -3901,9 +3907,10 @@ PyObject * PutMask(PyObject * self, PyObject * args)
             int64_t itemSizeOut = PyArray_ITEMSIZE(arr);
             int64_t itemSizeIn = PyArray_ITEMSIZE(inValues);
 
-            // check for strides... ?
+            // all are walked as one block of memory
             int64_t arrayLength = ArrayLength(arr);
-            if (arrayLength == ArrayLength(mask) && (arrayLength <= 1 || itemSizeOut == PyArray_STRIDE(arr, 0)))
+            if (arrayLength == ArrayLength(mask) && PyArray_ISWRITEABLE(arr) && PyArray_IS_C_CONTIGUOUS(arr) &&
+                PyArray_IS_C_CONTIGUOUS(mask) && PyArray_IS_C_CONTIGUOUS(inValues))
             {
                 int64_t valLength = ArrayLength(inValues);
 
@@ -3950,7 +3957,8 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         stMask.itemSizeIn = itemSizeIn;
                         stMask.itemSizeOut = itemSizeOut;
-                        stMask.pBadInput1 = GetDefaultForType(inDType);
+                        // bool has no invalid
+                        stMask.pBadInput1 = GetDefaultForType(inDType == NPY_BOOL ? NPY_INT8 : inDType);
                         stMask.pBadOutput1 = GetDefaultForType(outDType);
 
                         stMask.pIn = (char *)PyArray_BYTES(inValues);
@@ -3960,6 +3968,10 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         g_cMathWorker->DoMultiThreadedChunkWork(arrayLength, lambdaMaskCallback, &stMask);
 
+                        if (newValue)
+                        {
+                            Py_DECREF(value);
+                        }
                         Py_IncRef(Py_True);
                         return Py_True;
                     }
@@ -3968,6 +3980,11 @@ PyObject * PutMask(PyObject * self, PyObject * args)
         }
     }
 
+    if (newValue)
+    {
+        Py_DECREF(value);
+    }
+
     // punt to numpy
     Py_IncRef(Py_False);
     return Py_False;
-- 
2.43.0


From c5aaeef71338c95b32fe63243c924f48834e233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 33/65] fix: Where ignored the stride of its condition and
 misread arrays of another type

The condition was walked as one block of memory, arrays of another type or width
than the output were copied by the output's width, longer scalar strings overran
their buffer and the second one leaked.
---
 src/BasicMath.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index ad6f840..e2b9605 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3921,6 +3921,29 @@ PyObject * Where(PyObject * self, PyObject * args)
             "itemsize: %lld\n",
             twoInputs.scalarMode, twoInputs.numpyInType1, twoInputs.numpyInType2, twoInputs.numpyOutType, length, numpyItemSize);
 
+        // arrays are copied item by item, scalar strings are widened below
+        bool isString = numpyOutputType == NPY_STRING || numpyOutputType == NPY_UNICODE;
+        auto otherType = [&](PyArrayObject * arr, int64_t itemSize)
+        {
+            return itemSize != numpyItemSize || ! PyArray_EquivTypenums(PyArray_TYPE(arr), (int)numpyOutputType);
+        };
+        if ((! twoInputs.isScalar1 && otherType(twoInputs.inArr, twoInputs.itemSize1)) ||
+            (! twoInputs.isScalar2 && otherType(twoInputs.inArr2, twoInputs.itemSize2)) ||
+            (isString && ((twoInputs.isScalar1 && twoInputs.itemSize1 > numpyItemSize) ||
+                          (twoInputs.isScalar2 && twoInputs.itemSize2 > numpyItemSize))))
+        {
+            // punt to numpy
+            Py_INCREF(Py_None);
+            return Py_None;
+        }
+
+        // the condition is walked as one block of memory
+        PyArrayObject * condition = PyArray_GETCONTIGUOUS(inBool1);
+        if (! condition)
+        {
+            return nullptr;
+        }
+
         // Place holder for output array
         PyArrayObject * outputArray = nullptr;
 
@@ -3930,7 +3953,7 @@ PyObject * Where(PyObject * self, PyObject * args)
 
         if (outputArray)
         {
-            int8_t * pCondition = (int8_t *)PyArray_BYTES(inBool1);
+            int8_t * pCondition = (int8_t *)PyArray_BYTES(condition);
             void * pOutput = PyArray_BYTES(outputArray);
 
             // for scalar strings, the item size is twoInputs.itemSize1
@@ -3943,7 +3966,7 @@ PyObject * Where(PyObject * self, PyObject * args)
             char * extraAlloc2 = nullptr;
 
             // If we have scalar strings, we must make sure the length is the same
-            if (numpyOutputType == NPY_STRING || numpyOutputType == NPY_UNICODE)
+            if (isString)
             {
                 if (twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR || twoInputs.scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR)
                 {
@@ -4011,13 +4034,15 @@ PyObject * Where(PyObject * self, PyObject * args)
             {
                 free(extraAlloc1);
             }
-            if (extraAlloc2 == nullptr)
+            if (extraAlloc2)
             {
                 free(extraAlloc2);
             }
+            Py_DECREF(condition);
             return (PyObject *)outputArray;
         }
 
+        Py_DECREF(condition);
         PyErr_Format(PyExc_ValueError, "Where could not allocate a numpy array");
         return nullptr;
     }
-- 
2.43.0


From bd667b60e6a99fee0ae3b64b6eb8555957d56257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 34/65] fix: conversions of multi-dimensional views were wrong
 or overran, False became invalid when homogenizing

ConvertUnsafe walked arrays of more dimensions by their first stride, ConvertSafe
wrote column-major views transposed and lost invalids on the rest, HomogenizeArrays
took False for an invalid and called a null function for strings, ShiftArrays
shifted a copy of a strided array.
---
 src/Convert.cpp | 189 ++++++++++++++++++++++--------------------------
 1 file changed, 88 insertions(+), 101 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 76174c4..511f12e 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1037,6 +1037,18 @@ void * GetInvalid(int dtype)
     return pBadInput;
 }
 
+//=====================================================================================
+// Returns true when one stride walks the array in its memory order
+static bool IsConvertible(PyArrayObject * inArr)
+{
+    return PyArray_NDIM(inArr) <= 1 || PyArray_IS_C_CONTIGUOUS(inArr) || PyArray_IS_F_CONTIGUOUS(inArr);
+}
+
+static int64_t ConvertStride(PyArrayObject * inArr)
+{
+    return PyArray_NDIM(inArr) == 1 ? PyArray_STRIDE(inArr, 0) : PyArray_ITEMSIZE(inArr);
+}
+
 //=====================================================================================
 // Input: Two parameters
 // Arg1: array to convert
@@ -1069,8 +1081,21 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
 
     LOGGING("ConvertSafe converting type %d to type %d\n", numpyInType, numpyOutType);
 
+    if (! IsConvertible(inArr1))
+    {
+        // more dimensions than one stride can walk: convert a copy
+        PyArrayObject * copied = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_CORDER);
+        if (! copied)
+        {
+            return NULL;
+        }
+        PyObject * result = ConvertSafeInternal(copied, out_dtype);
+        Py_DECREF(copied);
+        return result;
+    }
+
     void * const pDataIn = PyArray_BYTES(inArr1);
-    int ndim = PyArray_NDIM(inArr1);
+    const int ndim = PyArray_NDIM(inArr1);
     npy_intp * const dims = PyArray_DIMS(inArr1);
 
     // Make sure array lengths match
@@ -1094,107 +1119,37 @@ PyObject * ConvertSafeInternal(PyArrayObject * const inArr1, const int64_t out_d
     // if output is boolean, bad means false
     void * pBadOutput1 = GetDefaultForType(numpyOutType);
 
-    // Check the strides of both the input and output to make sure we can handle
-    int64_t strideIn;
-    int directionIn = GetStridesAndContig(inArr1, ndim, strideIn);
+    // the output is contiguous, in the memory order of the input
+    int64_t strideIn = ConvertStride(inArr1);
+    int64_t strideOut = PyArray_ITEMSIZE(outArray);
 
-    int ndimOut;
-    int64_t strideOut;
-    int directionOut = GetStridesAndContig(outArray, ndimOut, strideOut);
+    stMATH_WORKER_ITEM * pWorkItem = g_cMathWorker->GetWorkItem(len);
 
-    // If the input is C and/or F-contiguous, the output should have
-    // the same flag(s) set.
-    if (directionIn != 0 || directionOut != 0)
+    if (! pWorkItem)
     {
-        // non-contiguous loop
-        // Walk the input, dimension by dimension, getting the stride
-        // Check if we can process, else punt to numpy
-        if (directionIn == 1 && directionOut == 0)
-        {
-            // Row Major 2dim like array with output being fully contiguous
-            int64_t innerLen = 1;
-            for (int i = directionIn; i < ndim; i++)
-            {
-                innerLen *= PyArray_DIM(inArr1, i);
-            }
-            // TODO: consider dividing the work over multiple threads if innerLen is
-            // large enough
-            const int64_t outerLen = PyArray_DIM(inArr1, 0);
-            const int64_t outerStride = PyArray_STRIDE(inArr1, 0);
-
-            LOGGING("Row Major  innerLen:%lld  outerLen:%lld  outerStride:%lld\n", innerLen, outerLen, outerStride);
-
-            for (int64_t j = 0; j < outerLen; j++)
-            {
-                pFunction((char *)pDataIn + (j * outerStride), (char *)pDataOut + (j * innerLen * strideOut), innerLen, pBadInput1,
-                          pBadOutput1, strideIn, strideOut);
-            }
-        }
-        else if (directionIn == -1 && directionOut == 0)
-        {
-            // Col Major 2dim like array with output being fully contiguous
-            int64_t innerLen = 1;
-            directionIn = -directionIn;
-            for (int i = 0; i < directionIn; i++)
-            {
-                innerLen *= PyArray_DIM(inArr1, i);
-            }
-            // TODO: consider dividing the work over multiple threads if innerLen is
-            // large enough
-            const int64_t outerLen = PyArray_DIM(inArr1, (ndim - 1));
-            const int64_t outerStride = PyArray_STRIDE(inArr1, (ndim - 1));
-
-            LOGGING("Col Major  innerLen:%lld  outerLen:%lld  outerStride:%lld\n", innerLen, outerLen, outerStride);
-
-            for (int64_t j = 0; j < outerLen; j++)
-            {
-                pFunction((char *)pDataIn + (j * outerStride), (char *)pDataOut + (j * innerLen * strideOut), innerLen, pBadInput1,
-                          pBadOutput1, strideIn, strideOut);
-            }
-        }
-        else
-        {
-            // Don't leak the memory we allocated -- free it before raising the Python
-            // error and returning.
-            Py_DECREF(outArray);
-            // have numpy do the work
-            outArray = (PyArrayObject *)PyArray_FROM_OT((PyObject *)inArr1, numpyOutType);
-            // return PyErr_Format(PyExc_RuntimeError, "ConvertSafe allocated an
-            // output array whose *_CONTIGUOUS flags were not set even though the input
-            // array was contiguous. %d %d   out:%d %d  strideIn:%lld  strideOut:%lld",
-            // contigIn, ndim, contigOut, ndimOut, strideIn, strideOut);
-        }
+        // Threading not allowed for this work item, call it directly from main
+        // thread
+        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, strideIn, strideOut);
     }
     else
     {
-        stMATH_WORKER_ITEM * pWorkItem = g_cMathWorker->GetWorkItem(len);
-
-        if (! pWorkItem)
-        {
-            // Threading not allowed for this work item, call it directly from main
-            // thread
-            pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, strideIn, strideOut);
-        }
-        else
-        {
-            // Each thread will call this routine with the callbackArg
-            pWorkItem->DoWorkCallback = ConvertThreadCallback;
-            pWorkItem->WorkCallbackArg = &stConvertCallback;
+        // Each thread will call this routine with the callbackArg
+        pWorkItem->DoWorkCallback = ConvertThreadCallback;
+        pWorkItem->WorkCallbackArg = &stConvertCallback;
 
-            stConvertCallback.anyConvertCallback = pFunction;
-            stConvertCallback.pDataOut = (char *)pDataOut;
-            stConvertCallback.pDataIn = (char *)pDataIn;
-            stConvertCallback.pBadInput1 = pBadInput1;
-            stConvertCallback.pBadOutput1 = pBadOutput1;
+        stConvertCallback.anyConvertCallback = pFunction;
+        stConvertCallback.pDataOut = (char *)pDataOut;
+        stConvertCallback.pDataIn = (char *)pDataIn;
+        stConvertCallback.pBadInput1 = pBadInput1;
+        stConvertCallback.pBadOutput1 = pBadOutput1;
 
-            stConvertCallback.typeSizeIn = strideIn;
-            stConvertCallback.typeSizeOut = strideOut;
+        stConvertCallback.typeSizeIn = strideIn;
+        stConvertCallback.typeSizeOut = strideOut;
 
-            // This will notify the worker threads of a new work item
-            // TODO: Calc how many threads we need to do the conversion (possibly just
-            // 3 worker threads is enough)
-            g_cMathWorker->WorkMain(pWorkItem, len, 0);
-        }
+        // This will notify the worker threads of a new work item
+        // TODO: Calc how many threads we need to do the conversion (possibly just
+        // 3 worker threads is enough)
+        g_cMathWorker->WorkMain(pWorkItem, len, 0);
     }
     return (PyObject *)outArray;
 }
@@ -1271,13 +1226,23 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
 
     LOGGING("ConvertUnsafe converting type %d to type %d\n", numpyInType, numpyOutType);
 
+    if (! IsConvertible(inArr1))
+    {
+        // more dimensions than one stride can walk: convert a copy
+        PyArrayObject * copied = (PyArrayObject *)PyArray_NewCopy(inArr1, NPY_CORDER);
+        if (! copied)
+        {
+            return NULL;
+        }
+        PyObject * result = ConvertUnsafeInternal(copied, out_dtype);
+        Py_DECREF(copied);
+        return result;
+    }
+
     void * pDataIn = PyArray_BYTES(inArr1);
 
     const int ndim = PyArray_NDIM(inArr1);
     npy_intp * const dims = PyArray_DIMS(inArr1);
-    // auto* const inArr1_strides = PyArray_STRIDES(inArr1);
-    // TODO: CalcArrayLength probably needs to be fixed to account for any
-    // non-default striding
     const int64_t arraySize1 = CalcArrayLength(ndim, dims);
     const int64_t len = arraySize1;
 
@@ -1297,13 +1262,17 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
     // if output is boolean, bad means false
     void * pBadOutput1 = GetDefaultForType(numpyOutType);
 
+    // the output is contiguous, in the memory order of the input
+    int64_t strideIn = ConvertStride(inArr1);
+    int64_t strideOut = PyArray_ITEMSIZE(outArray);
+
     stMATH_WORKER_ITEM * pWorkItem = g_cMathWorker->GetWorkItem(len);
 
     if (! pWorkItem)
     {
         // Threading not allowed for this work item, call it directly from main
         // thread
-        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, PyArray_STRIDE(inArr1, 0), PyArray_STRIDE(outArray, 0));
+        pFunction(pDataIn, pDataOut, len, pBadInput1, pBadOutput1, strideIn, strideOut);
     }
     else
     {
@@ -1317,8 +1286,8 @@ PyObject * ConvertUnsafeInternal(PyArrayObject * inArr1, int64_t out_dtype)
         stConvertCallback.pBadInput1 = pBadInput1;
         stConvertCallback.pBadOutput1 = pBadOutput1;
 
-        stConvertCallback.typeSizeIn = PyArray_STRIDE(inArr1, 0);
-        stConvertCallback.typeSizeOut = PyArray_STRIDE(outArray, 0);
+        stConvertCallback.typeSizeIn = strideIn;
+        stConvertCallback.typeSizeOut = strideOut;
 
         // This will notify the worker threads of a new work item
         g_cMathWorker->WorkMain(pWorkItem, len, 0);
@@ -3082,6 +3051,17 @@ PyObject * ShiftArrays(PyObject * self, PyObject * args)
 
     if (aInfo)
     {
+        // arrays are shifted in place
+        for (int t = 0; t < tupleSize; t++)
+        {
+            if (aInfo[t].pObject && (aInfo[t].pOriginalObject || ! PyArray_ISWRITEABLE(aInfo[t].pObject)))
+            {
+                FreeArrayInfo(aInfo);
+                PyErr_Format(PyExc_ValueError, "ShiftArrays: arrays must be contiguous and writable");
+                return NULL;
+            }
+        }
+
         int64_t totalLength = 0;
 
         // Callback routine from multithreaded worker thread (items just count up
@@ -3260,8 +3240,15 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
         else
         {
             dtype = GetUpcastDtype(aInfo, tupleSize);
-            if (dtype == -1)
+        }
+
+        for (int t = 0; t < tupleSize; t++)
+        {
+            if (dtype < 0 || (dtype != aInfo[t].NumpyDType && ! GetConversionFunctionSafe(aInfo[t].NumpyDType, dtype)))
             {
+                PyErr_Format(PyExc_ValueError, "HomogenizeArrays: Dont know how to convert dtype num %d to %d.",
+                             aInfo[t].NumpyDType, dtype);
+                FreeArrayInfo(aInfo);
                 return NULL;
             }
         }
@@ -3278,7 +3265,7 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
             if (dtype != aInfo[t].NumpyDType)
             {
                 CONVERT_SAFE convertSafe = GetConversionFunctionSafe(aInfo[t].NumpyDType, dtype);
-                void * pBadInput1 = GetDefaultForType(aInfo[t].NumpyDType);
+                void * pBadInput1 = GetInvalid(aInfo[t].NumpyDType);
                 PyArrayObject * pOutput = AllocateLikeNumpyArray(aInfo[t].pObject, dtype);
 
                 // TODO: multithread this
-- 
2.43.0


From dc7e2f920a7cc7795fd593a83bb2be8d7324a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 35/65] fix: combining group keys and categorical membership
 ignored the strides of their arrays

---
 src/Convert.cpp       | 51 +++++++++++++++++++++++++++++++++++++++++++
 src/Convert.h         | 32 +++++++++++++++++++++++++++
 src/HashFunctions.cpp | 11 ++++++++++
 3 files changed, 94 insertions(+)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 511f12e..6a7ef2b 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1411,6 +1411,16 @@ PyObject * CombineFilter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // both are read as one block of memory
+    ContiguousInput index(inArr1);
+    ContiguousInput filter(inFilter);
+    if (! index.pArray || ! filter.pArray)
+    {
+        return NULL;
+    }
+    inArr1 = index.pArray;
+    inFilter = filter.pArray;
+
     int32_t numpyOutType = PyArray_TYPE(inArr1);
     void * pDataIn = PyArray_BYTES(inArr1);
     int ndim = PyArray_NDIM(inArr1);
@@ -1710,6 +1720,21 @@ PyObject * CombineAccum2Filter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // all are read as one block of memory
+    ContiguousInput index1(inArr1);
+    ContiguousInput index2(inArr2);
+    ContiguousInput filter(inFilter);
+    if (! index1.pArray || ! index2.pArray || (PyArray_Check(inFilter) && ! filter.pArray))
+    {
+        return NULL;
+    }
+    inArr1 = index1.pArray;
+    inArr2 = index2.pArray;
+    if (filter.pArray)
+    {
+        inFilter = (PyObject *)filter.pArray;
+    }
+
     inArr1Max++;
     inArr2Max++;
 
@@ -2160,6 +2185,19 @@ PyObject * CombineAccum1Filter(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // both are read as one block of memory
+    ContiguousInput index(inArr1);
+    ContiguousInput filter(inFilter);
+    if (! index.pArray || (PyArray_Check(inFilter) && ! filter.pArray))
+    {
+        return NULL;
+    }
+    inArr1 = index.pArray;
+    if (filter.pArray)
+    {
+        inFilter = (PyObject *)filter.pArray;
+    }
+
     void * pDataIn1 = PyArray_BYTES(inArr1);
     int8_t * pFilterIn = NULL;
 
@@ -2401,6 +2439,19 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // both are read as one block of memory
+    ContiguousInput index(inArr1);
+    ContiguousInput filter(inFilter);
+    if (! index.pArray || (PyArray_Check(inFilter) && ! filter.pArray))
+    {
+        return NULL;
+    }
+    inArr1 = index.pArray;
+    if (filter.pArray)
+    {
+        inFilter = (PyObject *)filter.pArray;
+    }
+
     void * pDataIn1 = PyArray_BYTES(inArr1);
     int8_t * pFilterIn = NULL;
 
diff --git a/src/Convert.h b/src/Convert.h
index ace6279..8488e90 100644
--- a/src/Convert.h
+++ b/src/Convert.h
@@ -10,6 +10,38 @@ PyObject * ConvertSafe(PyObject * self, PyObject * args);
 
 PyObject * ConvertUnsafe(PyObject * self, PyObject * args);
 
+//------------------------------------------------------------------------------
+// Holds an array argument for code that walks it as one block of memory: the
+// array itself when it is one, otherwise a contiguous copy. Null when the argument
+// is no array or memory ran out.
+struct ContiguousInput
+{
+    PyArrayObject * pArray = nullptr;
+
+    explicit ContiguousInput(void * argument)
+    {
+        PyArrayObject * array = (PyArrayObject *)argument;
+        if (array && PyArray_Check((PyObject *)array))
+        {
+            if (PyArray_IS_C_CONTIGUOUS(array) || PyArray_IS_F_CONTIGUOUS(array))
+            {
+                Py_INCREF(array);
+                pArray = array;
+            }
+            else
+            {
+                pArray = (PyArrayObject *)PyArray_NewCopy(array, NPY_ANYORDER);
+            }
+        }
+    }
+    ~ContiguousInput()
+    {
+        Py_XDECREF(pArray);
+    }
+    ContiguousInput(ContiguousInput const &) = delete;
+    ContiguousInput & operator=(ContiguousInput const &) = delete;
+};
+
 PyObject * CombineFilter(PyObject * self, PyObject * args);
 
 PyObject * CombineAccum2Filter(PyObject * self, PyObject * args);
diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 46b0770..b10c550 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -3,6 +3,7 @@
 #include "RipTide.h"
 #include "is_member_tg.h"
 #include "HashFunctions.h"
+#include "Convert.h"
 #include "HashLinear.h"
 #include "ndarray.h"
 #include "one_input.h"
@@ -376,6 +377,16 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
                            &unique2Length, &baseoffset1, &baseoffset2))
         return NULL;
 
+    // all are read as one block of memory
+    ContiguousInput index1(inArr1);
+    ContiguousInput index2(inArr2);
+    ContiguousInput unique(isMemberUnique);
+    if (! index1.pArray || ! index2.pArray || ! unique.pArray)
+        return NULL;
+    inArr1 = index1.pArray;
+    inArr2 = index2.pArray;
+    isMemberUnique = unique.pArray;
+
     int64_t const arraySize1 = (int64_t)ArrayLength(inArr1);
     int64_t const arraySize2 = (int64_t)ArrayLength(inArr2);
     int64_t const arraySizeUnique64 = (int64_t)ArrayLength(isMemberUnique);
-- 
2.43.0


From 5d22bd3abee0f196ef6c328a46571833acff7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 36/65] fix: edge searches rounded edges to the values' type,
 misplaced threaded strings and read past the edges

---
 src/Bins.cpp | 118 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 87 insertions(+), 31 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index c6e84b8..e603bd4 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -2,6 +2,8 @@
 #include <Python.h>
 #include "ndarray.h"
 #include "Bins.h"
+#include <type_traits>
+#include "Convert.h"
 #include "Sort.h"
 #include "MathWorker.h"
 
@@ -616,6 +618,10 @@ void MakeBinsSorted(void * pDataIn1, void * pSortIndex1, void * pOut1, int64_t l
             {
                 // move to next bin
                 ++bin;
+                if (bin >= maxbin)
+                {
+                    break;
+                }
                 compare = pBin1[bin];
                 LOGGING("comparing to %lld %lld  %lf  %lf\n", i, (int64_t)bin, (double)pData[index], compare);
             }
@@ -718,10 +724,24 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
 
     LOGGING("counts %lld %lld %lld\n", nancount, infcount, neginfcount);
 
+    // all are read as one block of memory
+    ContiguousInput values(inArr1);
+    ContiguousInput edges(binArr1);
+    ContiguousInput index(indexArr1);
+    if (! values.pArray || ! edges.pArray || ! index.pArray)
+        return NULL;
+    inArr1 = values.pArray;
+    binArr1 = edges.pArray;
+    indexArr1 = index.pArray;
+
     if (PyArray_TYPE(binArr1) != NPY_DOUBLE)
     {
         PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
     }
+    else if (ArrayLength(binArr1) == 0)
+    {
+        PyErr_Format(PyExc_ValueError, "bin array must not be empty");
+    }
     else
     {
         int numpyInType = PyArray_TYPE(inArr1);
@@ -820,6 +840,23 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     return Py_None;
 }
 
+//------------------------------------------------------------------------------
+// The type in which values are compared with edges, without changing either:
+// floating point when one of them is, otherwise an integer wide enough for both
+template <typename T, typename BINTYPE>
+struct BinCompare
+{
+    static constexpr bool isFloat = ! std::is_integral_v<T> || ! std::is_integral_v<BINTYPE>;
+    static constexpr bool isLong = std::is_same_v<T, long double>;
+    static constexpr bool hasUInt64 = std::is_same_v<T, uint64_t> || std::is_same_v<BINTYPE, uint64_t>;
+    static constexpr bool hasSigned = std::is_signed_v<T> || std::is_signed_v<BINTYPE>;
+
+    using floating = std::conditional_t<isLong, long double, double>;
+    // no integer holds both int64 and uint64
+    using integer = std::conditional_t<! hasUInt64, int64_t, std::conditional_t<hasSigned, long double, uint64_t>>;
+    using type = std::conditional_t<isFloat, floating, integer>;
+};
+
 //=================================================================================================
 // T is the value type
 // U is the index type (often INT32)
@@ -842,8 +879,9 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BinCompare<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING("SearchSortedRight Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -851,26 +889,26 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
+        const COMPARE val = (COMPARE)value;
 
-        if (value >= veryfirst && value < verylast)
+        if (val >= veryfirst && val < verylast)
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((COMPARE)pBin1[middle] > val)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] <= val)
+                else if ((COMPARE)pBin1[middle] <= val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -887,7 +925,7 @@ void SearchSortedRight(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value < veryfirst)
+            if (val < veryfirst)
             {
                 pOut[i] = 0;
             }
@@ -922,8 +960,9 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     V maxbin = (V)maxbin1;
 
     const V lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BinCompare<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING("SearchSortedLeft Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -931,26 +970,26 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
+        const COMPARE val = (COMPARE)value;
 
-        if (value > veryfirst && value <= verylast)
+        if (val > veryfirst && val <= verylast)
         {
             // bin search
             V middle;
             V first = 0;
             V last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] >= val)     // if it's in the lower half
+                if ((COMPARE)pBin1[middle] >= val)     // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first > last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((COMPARE)pBin1[middle] < val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first > last)
@@ -967,7 +1006,7 @@ void SearchSortedLeft(void * pDataIn1, void * pOut1, const int64_t start, const
         else
         {
             // First bin for invalid values
-            if (value <= veryfirst)
+            if (val <= veryfirst)
             {
                 pOut[i] = 0;
             }
@@ -1174,7 +1213,7 @@ void SearchSortedLeftString(void * pDataIn1, void * pOut1, const int64_t start,
                             int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1269,7 +1308,7 @@ void MakeBinsBSearchString(void * pDataIn1, void * pOut1, const int64_t start, c
                            int64_t maxbin1, int64_t itemSizeValue, int64_t itemSizeBin)
 {
     const char * pData = (const char *)pDataIn1;
-    pData = &pData[start];
+    pData = &pData[start * itemSizeValue];
 
     OUT_TYPE * pOut = (OUT_TYPE *)pOut1;
     pOut = &pOut[start];
@@ -1378,8 +1417,9 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     OUT_TYPE maxbin = (OUT_TYPE)maxbin1;
 
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BinCompare<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING(
         "MakeBinsBSearchFloat Array length %lld   bin length %lld    bintype "
@@ -1390,24 +1430,24 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
-        if (std::isfinite(value) && value >= veryfirst && value <= verylast)
+        const COMPARE val = (COMPARE)value;
+        if (std::isfinite(value) && val >= veryfirst && val <= verylast)
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((COMPARE)pBin1[middle] > val)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((COMPARE)pBin1[middle] < val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1426,7 +1466,7 @@ void MakeBinsBSearchFloat(void * pDataIn1, void * pOut1, const int64_t start, co
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (val <= (COMPARE)pBin1[first])
                 {
                     pOut[i] = first;
                 }
@@ -1475,8 +1515,9 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
     void * pDefault = GetDefaultForType(numpyInType);
     const T defaultNan = *(T *)pDefault;
     const OUT_TYPE lastbin = maxbin - 1;
-    const T verylast = (const T)pBin1[lastbin];
-    const T veryfirst = (const T)pBin1[0];
+    using COMPARE = typename BinCompare<T, BINTYPE>::type;
+    const COMPARE verylast = (COMPARE)pBin1[lastbin];
+    const COMPARE veryfirst = (COMPARE)pBin1[0];
 
     LOGGING("MakeBinsBSearch Array length %lld   bin length %lld\n", length, (long long)maxbin);
 
@@ -1484,26 +1525,26 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
     for (int64_t i = 0; i < length; i++)
     {
         const T value = pData[i];
+        const COMPARE val = (COMPARE)value;
 
-        if (value != defaultNan && value >= veryfirst && value <= verylast)
+        if ((numpyInType == NPY_BOOL || value != defaultNan) && val >= veryfirst && val <= verylast)
         {
             // bin search
             OUT_TYPE middle;
             OUT_TYPE first = 0;
             OUT_TYPE last = lastbin;
-            BINTYPE val = (BINTYPE)value;
 
             // NOTE: this loop can be sped up
             do
             {
                 middle = (first + last) >> 1; // this finds the mid point
-                if (pBin1[middle] > val)      // if it's in the lower half
+                if ((COMPARE)pBin1[middle] > val)      // if it's in the lower half
                 {
                     last = middle - 1;
                     if (first >= last)
                         break;
                 }
-                else if (pBin1[middle] < val)
+                else if ((COMPARE)pBin1[middle] < val)
                 {
                     first = middle + 1; // if it's in the upper half
                     if (first >= last)
@@ -1522,7 +1563,7 @@ void MakeBinsBSearch(void * pDataIn1, void * pOut1, const int64_t start, const i
 
             if (first > 0)
             {
-                if (val <= pBin1[first])
+                if (val <= (COMPARE)pBin1[first])
                 {
                     pOut[i] = first;
                 }
@@ -1747,6 +1788,14 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!O!i", &PyArray_Type, &inArr1, &PyArray_Type, &binArr1, &searchMode))
         return NULL;
 
+    // both are read as one block of memory
+    ContiguousInput values(inArr1);
+    ContiguousInput edges(binArr1);
+    if (! values.pArray || ! edges.pArray)
+        return NULL;
+    inArr1 = values.pArray;
+    binArr1 = edges.pArray;
+
     int binType = PyArray_TYPE(binArr1);
 
     int numpyInType = PyArray_TYPE(inArr1);
@@ -1772,7 +1821,7 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
     if (numpyInType == binType)
     {
         // string or unicode comparison
-        if (numpyInType == NPY_STRING || numpyInType == NPY_UNICODE)
+        if (numpyInType == NPY_STRING && searchMode == 0)
         {
             isString = true;
         }
@@ -1815,6 +1864,13 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
             break;
         }
 
+        if (result && binSize == 0)
+        {
+            // no edge below any value
+            memset(PyArray_BYTES(result), 0, ArrayLength(result));
+            return (PyObject *)result;
+        }
+
         if (result)
         {
             if (isString)
-- 
2.43.0


From 06bd534b6ad13810c812841406899126e13ba0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 37/65] fix: rolling variance switched divisors, kept residue
 of skipped values and ignored integer invalids; time windows ignored strides

---
 src/Ema.cpp        | 76 ++++++++++++++++++++++++++++++----------------
 src/TimeWindow.cpp | 11 +++++++
 2 files changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 193673f..cf86b39 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -88,6 +88,12 @@ public:
     EmaBase(){};
     ~EmaBase(){};
 
+    // An item that is neither NaN nor the invalid of its type
+    static bool IsItemValid(T const item)
+    {
+        return riptide::invalid_for_type<T>::is_valid(item);
+    }
+
     // Pass in two vectors and return one vector
     // Used for operations like C = A + B
     // typedef void(*ANY_TWO_FUNC)(void* pDataIn, void* pDataIn2, void* pDataOut,
@@ -228,7 +234,7 @@ public:
         {
             T temp = pIn[i];
 
-            if (temp == temp)
+            if (IsItemValid(temp))
             {
                 currentSum += temp;
                 count++;
@@ -240,7 +246,7 @@ public:
         {
             T temp = pIn[i];
 
-            if (temp == temp)
+            if (IsItemValid(temp))
             {
                 currentSum += pIn[i];
                 count++;
@@ -249,7 +255,7 @@ public:
             // subtract the item leaving the window
             temp = pIn[i - windowSize];
 
-            if (temp == temp)
+            if (IsItemValid(temp))
             {
                 currentSum -= pIn[i - windowSize];
                 count--;
@@ -341,7 +347,7 @@ public:
             delta = item - amean;
             amean += delta / (i + 1);
             asqr += delta * (item - amean);
-            pOut[i] = asqr / i;
+            pOut[i] = asqr / (i + 1);
         }
 
         U count_inv = (U)1.0 / windowSize;
@@ -356,6 +362,11 @@ public:
             amean += delta * count_inv;
             item -= amean;
             asqr += (item + old) * delta;
+            if (asqr < 0)
+            {
+                // rounding only; NaN stays
+                asqr = 0;
+            }
 
             pOut[i] = asqr * count_inv;
         }
@@ -378,7 +389,7 @@ public:
             delta = item - amean;
             amean += delta / (i + 1);
             asqr += delta * (item - amean);
-            pOut[i] = sqrt(asqr / i);
+            pOut[i] = sqrt(asqr / (i + 1));
         }
 
         U count_inv = (U)1.0 / windowSize;
@@ -393,6 +404,11 @@ public:
             amean += delta * count_inv;
             item -= amean;
             asqr += (item + old) * delta;
+            if (asqr < 0)
+            {
+                // rounding only; NaN stays
+                asqr = 0;
+            }
 
             pOut[i] = sqrt(asqr * count_inv);
         }
@@ -413,30 +429,29 @@ public:
         {
             U item = (U)pIn[i];
 
-            if (item == item)
+            if (IsItemValid(pIn[i]))
             {
                 count += 1;
                 delta = item - amean;
                 amean += delta / count;
                 asqr += delta * (item - amean);
-                pOut[i] = asqr / count;
-            }
-            else
-            {
-                pOut[i] = NAN;
             }
+            // NaN as long as there is no valid item
+            pOut[i] = asqr / count;
         }
 
-        U count_inv = (U)1.0 / windowSize;
+        U count_inv = (U)1.0 / count;
 
         for (int64_t i = windowSize; i < len; i++)
         {
             U item = (U)pIn[i];
             U old = (U)pIn[i - windowSize];
+            bool const enters = IsItemValid(pIn[i]);
+            bool const leaves = IsItemValid(pIn[i - windowSize]);
 
-            if (item == item)
+            if (enters)
             {
-                if (old == old)
+                if (leaves)
                 {
                     delta = item - old;
                     old -= amean;
@@ -456,14 +471,14 @@ public:
             }
             else
             {
-                if (old == old)
+                if (leaves)
                 {
                     count -= 1;
                     count_inv = (U)1 / count;
                     // dd
                     if (count > 0)
                     {
-                        delta = old = amean;
+                        delta = old - amean;
                         amean -= delta * count_inv;
                         asqr -= delta * (old - amean);
                     }
@@ -500,30 +515,29 @@ public:
         {
             U item = (U)pIn[i];
 
-            if (item == item)
+            if (IsItemValid(pIn[i]))
             {
                 count += 1;
                 delta = item - amean;
                 amean += delta / count;
                 asqr += delta * (item - amean);
-                pOut[i] = sqrt(asqr / count);
-            }
-            else
-            {
-                pOut[i] = NAN;
             }
+            // NaN as long as there is no valid item
+            pOut[i] = sqrt(asqr / count);
         }
 
-        U count_inv = (U)1.0 / windowSize;
+        U count_inv = (U)1.0 / count;
 
         for (int64_t i = windowSize; i < len; i++)
         {
             U item = (U)pIn[i];
             U old = (U)pIn[i - windowSize];
+            bool const enters = IsItemValid(pIn[i]);
+            bool const leaves = IsItemValid(pIn[i - windowSize]);
 
-            if (item == item)
+            if (enters)
             {
-                if (old == old)
+                if (leaves)
                 {
                     delta = item - old;
                     old -= amean;
@@ -543,14 +557,14 @@ public:
             }
             else
             {
-                if (old == old)
+                if (leaves)
                 {
                     count -= 1;
                     count_inv = (U)1 / count;
                     // dd
                     if (count > 0)
                     {
-                        delta = old = amean;
+                        delta = old - amean;
                         amean -= delta * count_inv;
                         asqr -= delta * (old - amean);
                     }
@@ -705,6 +719,14 @@ PyObject * Rolling(PyObject * self, PyObject * args)
 
     int32_t dType = PyArray_TYPE(inArr);
 
+    if (param1 < 0)
+    {
+        if (inArr != inArrObject)
+            Py_DecRef((PyObject *)inArr);
+        PyErr_Format(PyExc_ValueError, "Rolling: negative window sizes are not supported");
+        return NULL;
+    }
+
     PyArrayObject * outArray = NULL;
     int64_t size = ArrayLength(inArr);
     ROLLING_FUNC pRollingFunc;
diff --git a/src/TimeWindow.cpp b/src/TimeWindow.cpp
index 81f26a0..de043c6 100644
--- a/src/TimeWindow.cpp
+++ b/src/TimeWindow.cpp
@@ -2,6 +2,7 @@
 #include "ndarray.h"
 #include "MathWorker.h"
 #include "TimeWindow.h"
+#include "Convert.h"
 #define LOGGING(...)
 
 typedef void (*TIMEWINDOW_FUNC)(void * pDataIn, void * pTimeIn, void * pDataOut, int64_t start, int64_t length,
@@ -166,6 +167,16 @@ PyObject * TimeWindow(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // both are read as one block of memory
+    ContiguousInput values(inArr);
+    ContiguousInput times(timeArr);
+    if (! values.pArray || ! times.pArray)
+    {
+        return NULL;
+    }
+    inArr = values.pArray;
+    timeArr = times.pArray;
+
     int32_t dType = PyArray_TYPE(inArr);
 
     PyArrayObject * outArray = NULL;
-- 
2.43.0


From 026c73afe948f0847bc3886224d955bf3099c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 38/65] fix: dates past the end of a month and bad times were
 accepted, well-formed times warned, and parsers ignored strides

---
 src/DateTime.cpp | 137 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 103 insertions(+), 34 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index db40c95..a52e6d1 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -1,6 +1,7 @@
 #include "RipTide.h"
 #include "ndarray.h"
 #include "MathWorker.h"
+#include "Convert.h"
 #include "DateTime.h"
 
 #include <format>
@@ -49,9 +50,15 @@ public:
     RT_FORCEINLINE int64_t ParseNumber(int64_t maxplaces);
     bool ParseSingleNonNumber(T expected);
 
+    // std::isspace is undefined for unicode characters and for negative chars
+    static bool is_space(T const c)
+    {
+        return c == ' ' || (c >= '\t' && c <= '\r');
+    }
+
     void consume_leading_whitespace()
     {
-        while (! at_end() && std::isspace(*pStart))
+        while (! at_end() && is_space(*pStart))
             pStart++;
     }
 
@@ -59,7 +66,7 @@ public:
     {
         while (! at_end())
         {
-            if (! std::isspace(*pStart))
+            if (! is_space(*pStart))
                 set_error("Unexpected characters");
 
             pStart++;
@@ -130,7 +137,7 @@ RT_FORCEINLINE int64_t ParseDecimal(const T ** ppStart, const T * pEnd)
 template <typename T>
 bool DateTimeParser<T>::ParseSingleNonNumber(T expected)
 {
-    if (pStart < pEnd && (*pStart < '0' || *pStart > '9'))
+    if (! at_end() && (*pStart < '0' || *pStart > '9'))
     {
         if (*pStart != expected)
             set_error("Unexpected delimiter");
@@ -151,7 +158,7 @@ template <typename T>
 RT_FORCEINLINE int64_t DateTimeParser<T>::ParseNumber(int64_t maxplaces)
 {
     // skip non numbers in front
-    while (pStart < pEnd)
+    while (! at_end())
     {
         if (*pStart < '0' || *pStart > '9')
         {
@@ -282,10 +289,12 @@ int64_t YearToEpochNano(int64_t year, int64_t month, int64_t day)
     //   For example, the years 1700, 1800, and 1900 are not leap years, but the years 1600 and 2000 are."
     // We limit to 2099 since 2100 is not a leap year and detecting that requires implementing the full algorithm.
     // The corresponding lookup tables in rt_datetime are likewise limited to 2099.
-    if (year >= 1970 && year <= 2099 && month >= 1 && month <= 12 && day >= 1 && day <= 31)
+    bool const leap = (year % 4) == 0;
+    if (year >= 1970 && year <= 2099 && month >= 1 && month <= 12 && day >= 1 &&
+        day <= (month == 12 ? 31 : leap ? MONTH_SPLITS_LEAP[month] - MONTH_SPLITS_LEAP[month - 1] : MONTH_SPLITS[month] - MONTH_SPLITS[month - 1]))
     {
         // check for leap.
-        if ((year % 4) == 0)
+        if (leap)
         {
             day = MONTH_SPLITS_LEAP[month - 1] + day - 1;
         }
@@ -403,7 +412,7 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
         int64_t minute = 0;
         int64_t seconds = 0;
 
-        if (pStart < pEnd && (*pStart < '0' || *pStart > '9'))
+        if (! at_end() && (*pStart < '0' || *pStart > '9'))
         {
             if (*pStart != 'T' && *pStart != ' ')
                 set_error("Unexpected delimiter");
@@ -454,21 +463,22 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
 }
 
 template <typename T>
-void parsing_error_to_py_warning(const parsing_error<T> & error);
+bool parsing_error_to_py_warning(const parsing_error<T> & error);
 
 template <>
-void parsing_error_to_py_warning<char>(const parsing_error<char> & error)
+bool parsing_error_to_py_warning<char>(const parsing_error<char> & error)
 {
     std::string datetime(error.start, error.end);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(), error.position);
+    return PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(), error.position) >= 0;
 }
 
 template <>
-void parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
+bool parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
 {
     PyObject * datetime = PyUnicode_FromKindAndData(PyUnicode_4BYTE_KIND, error.start, error.end - error.start);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime, error.position);
+    bool const result = PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime, error.position) >= 0;
     Py_XDECREF(datetime);
+    return result;
 }
 
 //--------------------------------------------------------------
@@ -486,6 +496,14 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // read as one block of memory
+    ContiguousInput text(inArr);
+    if (! text.pArray)
+    {
+        return NULL;
+    }
+    inArr = text.pArray;
+
     int32_t dType = PyArray_TYPE(inArr);
 
     PyArrayObject * outArray = NULL;
@@ -515,8 +533,12 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // warnings are errors
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -524,8 +546,12 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // warnings are errors
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
@@ -549,6 +575,14 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // read as one block of memory
+    ContiguousInput text(inArr);
+    if (! text.pArray)
+    {
+        return NULL;
+    }
+    inArr = text.pArray;
+
     int32_t dType = PyArray_TYPE(inArr);
 
     PyArrayObject * outArray = NULL;
@@ -578,8 +612,12 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // warnings are errors
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -587,8 +625,12 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // warnings are errors
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
@@ -612,6 +654,14 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // read as one block of memory
+    ContiguousInput text(inArr);
+    if (! text.pArray)
+    {
+        return NULL;
+    }
+    inArr = text.pArray;
+
     int32_t dType = PyArray_TYPE(inArr);
 
     PyArrayObject * outArray = NULL;
@@ -641,8 +691,12 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // warnings are errors
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -650,8 +704,12 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // warnings are errors
+                Py_DECREF(outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
@@ -680,7 +738,8 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
         // so we can add a terminating zero
         for (int64_t j = 0; j < itemSize; j++)
         {
-            pTempString[j] = (char)pStart[j];
+            // a character outside of ASCII matches nothing
+            pTempString[j] = pStart[j] >= 0 && pStart[j] <= 127 ? (char)pStart[j] : '\x7f';
         }
         pTempString[itemSize] = 0;
 
@@ -702,17 +761,19 @@ void ParseStrptime(int64_t * pOutNanoTime, int64_t arrayLength, const T * pStrin
 
             // 1900 is the strptime base year
             yearresult = YearToEpochNano(timeBack.tm_year + 1900, timeBack.tm_mon + 1, timeBack.tm_mday);
-
-            // addin hours min secs
-            yearresult += (1000000000LL * ((timeBack.tm_hour * 3600LL) + (timeBack.tm_min * 60LL) + timeBack.tm_sec));
-
-            // check for milli/micro/etc seconds
-            if (*pStop == PERIOD)
+            if (yearresult >= 0)
             {
-                // skip decimal
-                pStop++;
+                // addin hours min secs
+                yearresult += (1000000000LL * ((timeBack.tm_hour * 3600LL) + (timeBack.tm_min * 60LL) + timeBack.tm_sec));
 
-                yearresult += ParseDecimal<char>(&pStop, pEnd);
+                // check for milli/micro/etc seconds
+                if (*pStop == PERIOD)
+                {
+                    // skip decimal
+                    pStop++;
+
+                    yearresult += ParseDecimal<char>(&pStop, pEnd);
+                }
             }
         }
         else
@@ -750,6 +811,14 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // read as one block of memory
+    ContiguousInput text(inArr);
+    if (! text.pArray)
+    {
+        return NULL;
+    }
+    inArr = text.pArray;
+
     int32_t dType = PyArray_TYPE(inArr);
 
     PyArrayObject * outArray = NULL;
-- 
2.43.0


From 7f16a7112f4cc4fd841e51a57ebb44a8b96bb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 39/65] fix: stacked column-major and multi-dimensional
 strings, bands as large as the array, saved empty arrays, strided SDS masks
 and scalars

---
 src/MultiKey.cpp      |   3 +-
 src/SDSFile.cpp       | 132 ++++++++++++++++++++++++++++++------------
 src/SDSFilePython.cpp |  13 +++--
 3 files changed, 105 insertions(+), 43 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 2b77de7..ab879b7 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -241,8 +241,9 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
                 goto EXIT_ROUTINE;
             }
 
-            int64_t stride0 = PyArray_STRIDE((PyArrayObject *)inObject, 0);
             int64_t itemSize = aInfo[i].ItemSize;
+            // an array without dimensions has no strides
+            int64_t stride0 = aInfo[i].NDim > 0 ? PyArray_STRIDE((PyArrayObject *)inObject, 0) : itemSize;
 
             if (checkrows)
             {
diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index e489f76..0073982 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1247,6 +1247,13 @@ private:
     }
 };
 
+//-----------------------------------------------------
+// True if the bytes of the array were stored as they are (bands may happen to take up as many bytes as the array)
+static bool IsStoredUncompressed(SDS_ARRAY_BLOCK const * pBlockInfo)
+{
+    return pBlockInfo->ArrayCompressedSize == pBlockInfo->ArrayUncompressedSize && pBlockInfo->ArrayBandCount <= 0;
+}
+
 //-------------------------------------------------------
 // Returns bytesPerRow
 int64_t GetBytesPerRow(SDS_ARRAY_BLOCK * pBlockInfo)
@@ -1741,7 +1748,7 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                   pBlockInfo->ArrayCompressedSize);
 
     // Check if uncompressed
-    if (compressedSize == pBlockInfo->ArrayUncompressedSize)
+    if (IsStoredUncompressed(pBlockInfo))
     {
         // Read uncompressed chunk directly into our destination
         result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, compressedSize, pBlockInfo->ArrayDataOffset);
@@ -2508,7 +2515,7 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
     {
         // Check if uncompressed
         // check if our temporary buffer is large enough to hold decompression data
-        if (source_size != pBlockInfo->ArrayUncompressedSize && (pstCompressArrays->pCoreMemorySize[core] < source_size))
+        if (! IsStoredUncompressed(pBlockInfo) && (pstCompressArrays->pCoreMemorySize[core] < source_size))
         {
             //  Not large enough, allocate more
             if (pstCompressArrays->pCoreMemory[core])
@@ -2590,6 +2597,12 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
         wantedSize += bandCount * sizeof(int64_t);
     }
 
+    // an array without bytes is written like any other
+    if (wantedSize == 0)
+    {
+        wantedSize = 1;
+    }
+
     if (pstCompressArrays->pCoreMemorySize[core] < wantedSize)
     {
         if (pstCompressArrays->pCoreMemory[core])
@@ -5249,7 +5262,18 @@ void GapFillAny(SDSArrayInfo * pDestInfo, void * destBuffer, SDS_IO_PACKET * pIO
         // startrow:%lld   dtype: %d\n", (int)pMasterBlock->NDim, rowLength, colSize,
         // pIOPacket->ArrayOffset, (int)pMasterBlock->DType);
 
-        SDS_GAP_FILL_SPECIAL pGapFill = GetGapFillSpecial(pMasterBlock->DType);
+        SDS_GAP_FILL_SPECIAL pGapFill = GetGapFillSpecial(FixupDType(pMasterBlock->DType, pMasterBlock->ItemSize));
+
+        if (! pGapFill)
+        {
+            // strings
+            int64_t const itemSize = pMasterBlock->ItemSize;
+            for (int64_t col = 0; col < colSize; col++)
+            {
+                memset((char *)destBuffer + (col * totalRowLength + pIOPacket->ArrayOffset) * itemSize, 0, rowLength * itemSize);
+            }
+            return;
+        }
 
         pGapFill(destBuffer, // upper left corner of src
                  totalRowLength,
@@ -5422,11 +5446,14 @@ void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BL
 {
     // Only the itemsize for master is correct
     // The other dimensions are correct in the pSlaveBlock
+    // every string of a row is widened
     int64_t oneRowSize = pMasterBlock->ItemSize;
+    int64_t stringsPerRow = 1;
     for (int32_t j = 1; j < pSlaveBlock->NDim; j++)
     {
-        oneRowSize *= pSlaveBlock->Dimensions[j];
+        stringsPerRow *= pSlaveBlock->Dimensions[j];
     }
+    slaveItemSize = pSlaveBlock->ItemSize;
 
     int64_t gap = oneRowSize - slaveItemSize;
 
@@ -5434,7 +5461,7 @@ void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BL
     // int64_t rows = pSlaveBlock->Dimensions[0];
 
     // new code for filtering..
-    int64_t rows = slaveRowLength;
+    int64_t rows = slaveRowLength * stringsPerRow;
 
     if (gap > 0 && rows > 0)
     {
@@ -5447,7 +5474,7 @@ void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BL
             pEndString1--;
             pEndString2--;
 
-            for (int32_t i = 0; i < rows; i++)
+            for (int64_t i = 0; i < rows; i++)
             {
                 char * pFront = pEndString2 - gap;
                 while (pEndString2 > pFront)
@@ -5478,7 +5505,7 @@ void StringFixup(char * destBuffer, SDS_ARRAY_BLOCK * pMasterBlock, SDS_ARRAY_BL
             pEndString1--;
             pEndString2--;
 
-            for (int32_t i = 0; i < rows; i++)
+            for (int64_t i = 0; i < rows; i++)
             {
                 // first copy the gap
                 for (int32_t j = 0; j < gap; j++)
@@ -5733,22 +5760,15 @@ SDS_COMPATIBLE IsArrayCompatible(const char * colName, SDS_ARRAY_BLOCK * pMaster
         // If the other array is both C and F contiguous, it never needs no rotation.
         if (oflags != (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS))
         {
-            if (mflag != oflag)
+            // If the master block is C and F contiguous, and fixing up, adopt the other's order.
+            if (doFixup && mflags == (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS))
+            {
+                pMasterArrayBlock->Flags = pArrayBlock->Flags;
+            }
+            else if (mflag != oflag)
             {
                 // possibly incompatible
-                bool needsRotation = true;
-
-                // If the master block is C and F contiguous, and fixing up, adopt the other's order.
-                if (doFixup)
-                {
-                    if (mflags == (SDS_ARRAY_C_CONTIGUOUS | SDS_ARRAY_F_CONTIGUOUS))
-                    {
-                        pMasterArrayBlock->Flags = pArrayBlock->Flags;
-                        needsRotation = false;
-                    }
-                }
-
-                c.NeedsRotation = needsRotation;
+                c.NeedsRotation = true;
             }
         }
     }
@@ -5773,16 +5793,13 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
 
         if (pMasterBlock->NDim >= 2 && pMasterBlock->Flags & SDS_ARRAY_F_CONTIGUOUS)
         {
-            if (pMasterBlock->NDim > 2)
-            {
-                logger->error("!!! error cannot rotate above two dimensions");
-            }
-            int64_t allocSize = pBlockInfo->ItemSize;
+            // room for items that are widened in place before they are rotated
+            int64_t allocSize = std::max<int64_t>(pBlockInfo->ItemSize, pMasterBlock->ItemSize);
             for (int32_t j = 0; j < pBlockInfo->NDim; j++)
             {
                 allocSize *= pBlockInfo->Dimensions[j];
             }
-            return WORKSPACE_ALLOC(allocSize);
+            return WORKSPACE_ALLOC(std::max<int64_t>(allocSize, 1));
         }
         else
         {
@@ -5808,7 +5825,8 @@ void * CheckRotationalFixup(SDS_IO_PACKET * pIOPacket)
 //----------------------------------------------------------
 // Called from multiple threads
 // Frees the buffer allocated from CheckRotationalFixup
-bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void * tempBuffer)
+// If pFilter is set, only the rows of the boolean mask are kept
+bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void * tempBuffer, SDS_FILTER * pFilter)
 {
     if (! tempBuffer || ! origBuffer)
     {
@@ -5822,7 +5840,35 @@ bool FinishRotationalFixup(SDS_IO_PACKET * pIOPacket, void * origBuffer, void *
     {
         int64_t totalRowLength = pMasterBlock->Dimensions[0];
         int64_t rowLength = pBlockInfo->Dimensions[0];
-        int64_t colLength = pMasterBlock->Dimensions[1];
+        int64_t colLength = 1;
+        for (int32_t j = 1; j < pMasterBlock->NDim; j++)
+        {
+            colLength *= pMasterBlock->Dimensions[j];
+        }
+
+        if (pFilter)
+        {
+            // squeeze the rows of the mask together, column by column
+            int64_t const itemSize = pMasterBlock->ItemSize;
+            int64_t const firstRow = pIOPacket->OriginalArrayOffset;
+            int64_t const lastRow = std::min(rowLength, pFilter->BoolMaskLength - firstRow);
+            char * pKept = (char *)tempBuffer;
+            int64_t kept = 0;
+            for (int64_t col = 0; col < colLength; col++)
+            {
+                kept = 0;
+                for (int64_t row = 0; row < lastRow; row++)
+                {
+                    if (pFilter->pBoolMask[firstRow + row])
+                    {
+                        memmove(pKept, (char *)tempBuffer + (col * rowLength + row) * itemSize, itemSize);
+                        pKept += itemSize;
+                        kept++;
+                    }
+                }
+            }
+            rowLength = kept;
+        }
 
         RotationalFixup((char *)origBuffer, // original buffer (upper left of final destination)
                         (char *)tempBuffer, // upper left corner of src
@@ -5936,8 +5982,8 @@ bool DecompressMultiArray(void * pstCompressArraysV,
         }
 
         // Check if uncompressed
-        // check if our temporary buffer is large enough to hold decompression data
-        if ((source_size != pBlockInfo->ArrayUncompressedSize) && (pMultiIOPackets->pCoreMemorySize[core] < source_size))
+        // check if our temporary buffer is large enough to hold decompression data (filters read into it as well)
+        if ((! IsStoredUncompressed(pBlockInfo) || pMultiIOPackets->pFilter->pBoolMask) && (pMultiIOPackets->pCoreMemorySize[core] < source_size))
         {
             if (pMultiIOPackets->pCoreMemory[core])
             {
@@ -5970,7 +6016,11 @@ bool DecompressMultiArray(void * pstCompressArraysV,
             if (slaveItemSize == 0)
                 return true;
 
-            if ((pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED))
+            bool const isFiltered =
+                (pMasterBlock && pMasterBlock->Flags & SDS_ARRAY_FILTERED) || (pBlockInfo->Flags & SDS_ARRAY_FILTERED);
+
+            // arrays to be rotated are filtered afterwards
+            if (isFiltered && ! origBuffer)
             {
                 // printf("filtering on for %lld\n", t);
                 // if (pMultiIOPackets->pFilter->pFancyMask) {
@@ -6019,12 +6069,7 @@ bool DecompressMultiArray(void * pstCompressArraysV,
             if (result >= 0)
             {
                 // Check if we had to allocate an extra buffer for rotation
-                if (origBuffer)
-                {
-                    FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer);
-                    destBuffer = origBuffer;
-                }
-                else
+                if (! origBuffer || ! (pIOPacket->Compatible.NeedsStringFixup & 2))
                 {
                     // Python string fixup path
                     if (pIOPacket->Compatible.NeedsStringFixup == 1)
@@ -6046,6 +6091,11 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                         ConvertDType((char *)destBuffer, pMasterBlock, pBlockInfo, slaveRowLength, slaveItemSize);
                     }
                 }
+                if (origBuffer)
+                {
+                    FinishRotationalFixup(pIOPacket, origBuffer, rotateBuffer, isFiltered ? pMultiIOPackets->pFilter : nullptr);
+                    destBuffer = origBuffer;
+                }
             }
         }
     }
@@ -7342,6 +7392,12 @@ public:
                 SDS_ARRAY_BLOCK * pMasterBlock = &pKing->KingBlock;
                 // LOGGING("master %p ", pMasterBlock);
 
+                // an array that is contiguous both ways stacks row by row
+                if (pMasterBlock->Flags & SDS_ARRAY_C_CONTIGUOUS)
+                {
+                    pMasterBlock->Flags &= ~SDS_ARRAY_F_CONTIGUOUS;
+                }
+
                 int32_t mask = SDS_FLAGS_ORIGINAL_CONTAINER;
                 bool isFilterable = false;
 
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 994343f..489d1ba 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -6,6 +6,7 @@
 #include "SharedMemory.h"
 #include "bytesobject.h"
 #include <Python.h>
+#include <optional>
 #include <stdlib.h>
 
 #include "MathWorker.h"
@@ -1597,7 +1598,8 @@ void AllocateArrayCallback(SDS_ALLOCATE_ARRAY * pAllocateArray)
 
 //----------------------------------------------------
 // Return the maskLength and pBooleanMask
-void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
+// mask keeps the memory of the mask alive
+void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB, std::optional<ContiguousInput> & mask)
 {
     pRCB->Filter.BoolMaskLength = 0;
     pRCB->Filter.pBoolMask = NULL;
@@ -1632,8 +1634,9 @@ void GetFilters(PyObject * kwargs, SDS_READ_CALLBACKS * pRCB)
             {
                 if (fancyItem)
                     pRCB->Filter.IsFancy = PyObject_IsTrue(fancyItem);
+                mask.emplace((PyArrayObject *)maskItem);
                 pRCB->Filter.BoolMaskLength = ArrayLength((PyArrayObject *)maskItem);
-                pRCB->Filter.pBoolMask = (bool *)PyArray_GETPTR1((PyArrayObject *)maskItem, 0);
+                pRCB->Filter.pBoolMask = (bool *)PyArray_DATA(mask->pArray);
                 // Needed
                 pRCB->Filter.BoolMaskTrueCount = SumBooleanMask((int8_t *)pRCB->Filter.pBoolMask, pRCB->Filter.BoolMaskLength);
                 LOGGING("Found valid mask.  length: %lld\n", pRCB->Filter.BoolMaskLength);
@@ -1720,7 +1723,8 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     sdsRCB.pFolderInclusionList = NULL;
 
     // new for filtering
-    GetFilters(kwargs, &sdsRCB);
+    std::optional<ContiguousInput> mask;
+    GetFilters(kwargs, &sdsRCB, mask);
 
     // new for boolean mask
     // GetFilters(kwargs, &sdsRCB.pBooleanMask, &sdsRCB.MaskLength);
@@ -1877,7 +1881,8 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
             sdsRCB.strOutputFilename = pOutputName;
 
             // new for filtering
-            GetFilters(kwargs, &sdsRCB);
+            std::optional<ContiguousInput> mask;
+            GetFilters(kwargs, &sdsRCB, mask);
 
             //==============================================
             // may return NULL if not all files existed
-- 
2.43.0


From 1e7361f87f75cfea0c309ff9f1d0e3479824eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 40/65] fix: reads of damaged SDS files returned uninitialised
 arrays

---
 src/SDSFile.cpp | 98 ++++++++++++++++++++++++++++++++++++++++++++++---
 src/SDSFile.h   |  3 ++
 2 files changed, 95 insertions(+), 6 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 0073982..c522261 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1337,6 +1337,11 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
         {
             // Read compressed chunk directly into our destBuffer
             result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, lastData, arrayDataOffset);
+            if (result != lastData)
+            {
+                logger->error("[{}][{}] error while reading into uncompressed  sz: {}", core, stackIndex, lastData);
+                result = -1;
+            }
         }
         else
         {
@@ -1380,6 +1385,11 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                     result = -1;
                 }
             }
+            else
+            {
+                logger->error("[{}][{}] error while reading into decompressed  sz: {}", core, stackIndex, compressedSize);
+                result = -1;
+            }
         }
     }
     else
@@ -1393,7 +1403,7 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
         {
             // nothing to do
             logger->debug("nothing to read all filtered out!");
-            return result;
+            return 0;
         }
         logger->debug(
             "Boolmask bpr:{}  ai:{}  rowOffset:{}  fixup:{}  "
@@ -1521,9 +1531,28 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                             }
                         }
                     }
+                    else
+                    {
+                        logger->error("[{}][{}] MTDecompression error size {} vs {}", core, stackIndex, dcSize, uncompressedSize);
+                        result = -1;
+                    }
                     WORKSPACE_FREE(pTempBuffer);
                 }
+                else
+                {
+                    result = -1;
+                }
             }
+            else
+            {
+                logger->error("[{}][{}] error while reading into decompressed  sz: {}", core, stackIndex, compressedSize);
+                result = -1;
+            }
+        }
+        else
+        {
+            // every row is filtered out
+            result = 0;
         }
     }
     return result;
@@ -1560,7 +1589,7 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
     int64_t boolLength = pFilter->BoolMaskLength;
     int64_t bandStart = 0;
     int64_t bandIndex = 0;
-    int64_t result = -1;
+    int64_t result = 0;
     int64_t runningTrueCount = 0;
 
     logger->debug(
@@ -1574,6 +1603,12 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
         int64_t compressedSize = pBands[i] - previousSize;
         previousSize = pBands[i];
 
+        if (compressedSize < 0 || compressedSize > pBlockInfo->ArrayCompressedSize)
+        {
+            logger->error("!!!Error in band header");
+            return -1;
+        }
+
         int64_t bandSize = pBlockInfo->ArrayBandSize;
         int64_t uncompressedSize = pBlockInfo->ArrayBandSize * bytesPerRow;
 
@@ -1630,6 +1665,10 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
                                           tempBuffer, destBandBuffer, &tempFilter, rowOffset,
                                           0, // fake to 0 to read our filterinfo
                                           core, compMode);
+            if (result < 0)
+            {
+                return result;
+            }
 
             // TODO change based on how many true values in the mask
             destBandBuffer += (trueCount * bytesPerRow);
@@ -1699,6 +1738,7 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
             else
             {
                 logger->error("!!!Error reading in band header");
+                result = -1;
             }
         }
         else
@@ -1790,6 +1830,13 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                     int64_t compressedSize = pBands[i] - previousSize;
                     previousSize = pBands[i];
 
+                    if (compressedSize < 0 || compressedSize > pBlockInfo->ArrayCompressedSize)
+                    {
+                        logger->error("!!!Error in band header");
+                        result = -1;
+                        break;
+                    }
+
                     int64_t uncompressedSize = pBlockInfo->ArrayBandSize;
                     uncompressedSize *= bytesPerRow;
 
@@ -1818,7 +1865,8 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                         result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, tempBuffer, compressedSize, arrayDataOffset);
                         // printf("[%d] decompressing  %d  size %lld  uncomp: %lld\n", core,
                         // i, compressedSize, uncompressedSize);
-                        int64_t dcSize =
+                        int64_t dcSize = result != compressedSize ?
+                            -1 :
                             DecompressData(NULL, compMode, destBandBuffer, uncompressedSize, tempBuffer, compressedSize);
                         if (dcSize != uncompressedSize)
                         {
@@ -1838,6 +1886,7 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
             else
             {
                 logger->error("!!!Error reading in band header");
+                result = -1;
             }
         }
         else
@@ -2533,19 +2582,25 @@ bool DecompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
         }
 
         void * tempBuffer = pstCompressArrays->pCoreMemory[core];
+        int64_t result = 0;
 
         if (pBlockInfo->Flags & SDS_ARRAY_FILTERED)
         {
             // No stacking but filtering
-            int64_t result =
+            result =
                 ReadAndDecompressArrayBlockWithFilter(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
                                                       destBuffer, 0, pstCompressArrays->pFilter, t, core, COMPRESSION_TYPE_ZSTD);
         }
         else
         {
             // No stacking, no filtering
-            int64_t result = ReadAndDecompressArrayBlock(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer,
-                                                         destBuffer, t, core, COMPRESSION_TYPE_ZSTD);
+            result = ReadAndDecompressArrayBlock(pBlockInfo, pstCompressArrays->eventHandles[core], sdsFile, tempBuffer, destBuffer,
+                                                 t, core, COMPRESSION_TYPE_ZSTD);
+        }
+
+        if (result < 0)
+        {
+            pstCompressArrays->readFailed = true;
         }
     }
 
@@ -3252,6 +3307,9 @@ struct SDS_MULTI_IO_PACKETS
     // New Filtering
     SDS_FILTER * pFilter;
 
+    // set by any thread which could not read its array
+    volatile bool readFailed;
+
     // See: compMode value -- COMPRESSIOM_MODE_SHAREDMEMORY
     // used when compressing to file
 
@@ -3651,6 +3709,7 @@ public:
         SDS_READ_DECOMPRESS_ARRAYS * pstDecompressArrays =
             (SDS_READ_DECOMPRESS_ARRAYS *)WORKSPACE_ALLOC(sizeof(SDS_READ_DECOMPRESS_ARRAYS) + (tupleSize * sizeof(SDSArrayInfo)));
         pstDecompressArrays->totalHeaders = tupleSize;
+        pstDecompressArrays->readFailed = false;
 
         // Init all the pNumpyArray pointers
         for (int32_t t = 0; t < tupleSize; t++)
@@ -4121,6 +4180,12 @@ public:
                         DefaultFileIO.DestroyEventHandle(pstCompressArrays->eventHandles[j]);
                     }
 
+                    if (pstCompressArrays->readFailed)
+                    {
+                        SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not read every array in file: %s", FileName);
+                        return false;
+                    }
+
                     pMemoryFileHeader->ArraysWritten = arrayCount;
                     logger->debug("End fill array block {}", arrayCount);
                     ;
@@ -4342,6 +4407,12 @@ public:
                 DefaultFileIO.DestroyEventHandle(pstCompressArrays->eventHandles[j]);
             }
 
+            if (pstCompressArrays->readFailed)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not read every array in file: %s", FileName);
+                goto EXIT_DECOMPRESS;
+            }
+
             return true;
         }
         else
@@ -6066,6 +6137,11 @@ bool DecompressMultiArray(void * pstCompressArraysV,
                 slaveRowLength = pBlockInfo->ArrayUncompressedSize / slaveItemSize;
             }
 
+            if (result < 0)
+            {
+                pMultiIOPackets->readFailed = true;
+            }
+
             if (result >= 0)
             {
                 // Check if we had to allocate an extra buffer for rotation
@@ -6491,6 +6567,11 @@ public:
             void * saveState = pReadCallbacks->BeginAllowThreads();
             g_cMathWorker->DoMultiThreadedWork((int)totalIOPackets, DecompressMultiArray, pMultiIOPackets);
             pReadCallbacks->EndAllowThreads(saveState);
+
+            if (pMultiIOPackets->readFailed)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not read every array of the files");
+            }
         }
 
         void * result = pReadCallbacks->ReadFinalCallback(pReadFinalCallback, FileCount);
@@ -7757,6 +7838,11 @@ public:
                 void * saveState = pReadCallbacks->BeginAllowThreads();
                 g_cMathWorker->DoMultiThreadedWork((int)validPos, DecompressMultiArray, pMultiIOPackets);
                 pReadCallbacks->EndAllowThreads(saveState);
+
+                if (pMultiIOPackets->readFailed)
+                {
+                    SetErr_Format(SDS_VALUE_ERROR, "Decompression error could not read every array of the files");
+                }
             }
 
             logger->debug("Multistack done reading -- returning {} cols", TotalUniqueColumns);
diff --git a/src/SDSFile.h b/src/SDSFile.h
index 2b3d047..2075799 100644
--- a/src/SDSFile.h
+++ b/src/SDSFile.h
@@ -548,6 +548,9 @@ struct SDS_READ_DECOMPRESS_ARRAYS
     // Used when going to shared memory
     class SharedMemory * pMemoryIO;
 
+    // set by any thread which could not read its array
+    volatile bool readFailed;
+
     int64_t totalHeaders;
     int16_t compMode;
     int16_t compType;
-- 
2.43.0


From 004c0b7162e218cd7206bec127d5d88a07e80e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 41/65] fix: empty arrays and strings did not survive
 compression, damaged compressed arrays were read past their end

---
 src/Compress.cpp | 68 +++++++++++++++++++++++++++++++-----------------
 src/Compress.h   |  3 +++
 2 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/Compress.cpp b/src/Compress.cpp
index 0330788..fa6832a 100644
--- a/src/Compress.cpp
+++ b/src/Compress.cpp
@@ -79,10 +79,10 @@ bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
         {
         case ZSTD_CONTENTSIZE_UNKNOWN:
         case ZSTD_CONTENTSIZE_ERROR:
-        case 0:
-            PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
-            return false;
+            pstCompressArrays->failed = true;
+            return true;
 
+        case 0: // empty is allowed
         default:
             break;
         }
@@ -92,18 +92,10 @@ bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
 
         size_t cSize = ZSTD_decompress(dest, dest_size, source, pNumpyHeader->compressedSize);
 
-        if (ZSTD_isError(cSize))
+        // worker threads cannot raise, the caller does
+        if (ZSTD_isError(cSize) || cSize != dest_size)
         {
-            PyErr_Format(PyExc_ValueError, "Decompression error: %s", ZSTD_getErrorName(cSize));
-            return false;
-        }
-        else if (cSize != dest_size)
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Decompression error: length mismatch -> decomp %llu != "
-                         "%llu [header]",
-                         (uint64_t)cSize, dest_size);
-            return false;
+            pstCompressArrays->failed = true;
         }
     }
 
@@ -187,6 +179,7 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
         COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays =
             (COMPRESS_NUMPY_TO_NUMPY *)WORKSPACE_ALLOC(sizeof(COMPRESS_NUMPY_TO_NUMPY) + (tupleSize * sizeof(NUMPY_HEADERSIZE *)));
         pstCompressArrays->totalHeaders = tupleSize;
+        pstCompressArrays->failed = false;
 
         //---------------------
         if (level <= 0)
@@ -227,17 +220,33 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                 for (int t = 0; t < tupleSize; t++)
                 {
                     NUMPY_HEADERSIZE * pNumpyHeader = (NUMPY_HEADERSIZE *)aInfo[t].pData;
-                    uint64_t dest_size = (uint64_t)ZSTD_getFrameContentSize(&pNumpyHeader[1], pNumpyHeader->compressedSize);
-                    switch (dest_size)
+                    int64_t const totalBytes = aInfo[t].ArrayLength * aInfo[t].ItemSize;
+                    bool valid = totalBytes >= (int64_t)sizeof(NUMPY_HEADERSIZE) && pNumpyHeader->magic == COMPRESSION_MAGIC &&
+                                 pNumpyHeader->ndim >= 0 && pNumpyHeader->ndim <= 3 &&
+                                 pNumpyHeader->compressedSize <= (uint64_t)totalBytes - sizeof(NUMPY_HEADERSIZE);
+                    if (valid)
+                    {
+                        // the array to fill must have the size of what was compressed
+                        uint64_t const dest_size =
+                            (uint64_t)ZSTD_getFrameContentSize(&pNumpyHeader[1], pNumpyHeader->compressedSize);
+                        uint64_t array_size = pNumpyHeader->itemsize;
+                        for (int i = 0; i < pNumpyHeader->ndim; i++)
+                        {
+                            array_size *= (uint64_t)pNumpyHeader->dimensions[i];
+                        }
+                        valid = dest_size != ZSTD_CONTENTSIZE_UNKNOWN && dest_size != ZSTD_CONTENTSIZE_ERROR &&
+                                dest_size == array_size;
+                    }
+                    if (! valid)
                     {
-                    case ZSTD_CONTENTSIZE_UNKNOWN:
-                    case ZSTD_CONTENTSIZE_ERROR:
                         PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
+                        for (int j = 0; j < t; j++)
+                        {
+                            Py_XDECREF(pstCompressArrays->pNumpyArray[j]);
+                        }
+                        WORKSPACE_FREE(pstCompressArrays);
+                        FreeArrayInfo(aInfo);
                         return NULL;
-
-                    case 0: // empty is allowed
-                    default:
-                        break;
                     }
 
                     // Allocate all the arrays before multithreading
@@ -248,6 +257,18 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                 }
 
                 g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
+
+                if (pstCompressArrays->failed)
+                {
+                    PyErr_Format(PyExc_ValueError, "Decompression error: input data is damaged");
+                    for (int t = 0; t < tupleSize; t++)
+                    {
+                        Py_XDECREF(pstCompressArrays->pNumpyArray[t]);
+                    }
+                    WORKSPACE_FREE(pstCompressArrays);
+                    FreeArrayInfo(aInfo);
+                    return NULL;
+                }
             }
             break;
         }
@@ -405,7 +426,6 @@ PyObject * CompressString(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (source_size > 0)
     {
         dest = PyBytes_AS_STRING(result);
 
@@ -457,10 +477,10 @@ PyObject * DecompressString(PyObject * self, PyObject * args)
     {
     case ZSTD_CONTENTSIZE_UNKNOWN:
     case ZSTD_CONTENTSIZE_ERROR:
-    case 0:
         PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
         return NULL;
 
+    case 0: // empty is allowed
     default:
         break;
     }
diff --git a/src/Compress.h b/src/Compress.h
index d09fdb9..9f4dbd7 100644
--- a/src/Compress.h
+++ b/src/Compress.h
@@ -75,6 +75,9 @@ struct COMPRESS_NUMPY_TO_NUMPY
     int16_t compType;
     int32_t compLevel;
 
+    // set by any thread which could not decompress
+    volatile bool failed;
+
     // Per core allocations
     void * pCoreMemory[64];
 
-- 
2.43.0


From fa204456fadda5e25918b5575d6e07f0f548dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 42/65] fix: bit counts, trimming and interpolation ignored
 strides; columns of records were written past strided arrays

---
 src/BitCount.cpp   |  8 ++++++++
 src/Convert.cpp    | 18 +++++++++++++++---
 src/Ema.cpp        | 19 ++++++++++++++-----
 src/TileRepeat.cpp | 18 ++++++++++++++++++
 4 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/BitCount.cpp b/src/BitCount.cpp
index 59b181e..ecef4f3 100644
--- a/src/BitCount.cpp
+++ b/src/BitCount.cpp
@@ -2,6 +2,7 @@
 #include "ndarray.h"
 #include "MathWorker.h"
 #include "BitCount.h"
+#include <memory>
 #include <nmmintrin.h>
 
 PyObject * BitCount(PyObject * self, PyObject * args)
@@ -26,6 +27,13 @@ PyObject * BitCount(PyObject * self, PyObject * args)
     if (! PyArg_ParseTuple(args, "O!", &PyArray_Type, &inArr))
         return NULL;
 
+    // read as one block of memory
+    std::unique_ptr<PyArrayObject, void (*)(PyArrayObject *)> const bits(
+        (PyArrayObject *)PyArray_FromAny((PyObject *)inArr, NULL, 0, 0, NPY_ARRAY_C_CONTIGUOUS, NULL), [](PyArrayObject * p) { Py_XDECREF(p); });
+    if (! bits)
+        return NULL;
+    inArr = bits.get();
+
     const int ndim = PyArray_NDIM(inArr);
     // N.B. AllocateNumpyArray doesn't accept const pointer for dims
     npy_intp * dims = PyArray_DIMS(inArr);
diff --git a/src/Convert.cpp b/src/Convert.cpp
index 6a7ef2b..4e5be4a 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2593,9 +2593,16 @@ PyObject * RemoveTrailingSpaces(PyObject * self, PyObject * args)
 
     if (dtype == NPY_STRING || dtype == NPY_UNICODE)
     {
-        void * pDataIn1 = PyArray_BYTES(inArr1);
-        int64_t arraySize1 = ArrayLength(inArr1);
-        int64_t itemSize = PyArray_ITEMSIZE(inArr1);
+        // trimmed in one block of memory: the array's own or a copy
+        ContiguousInput text(inArr1);
+        if (! text.pArray)
+        {
+            return NULL;
+        }
+
+        void * pDataIn1 = PyArray_BYTES(text.pArray);
+        int64_t arraySize1 = ArrayLength(text.pArray);
+        int64_t itemSize = PyArray_ITEMSIZE(text.pArray);
 
         if (dtype == NPY_STRING)
         {
@@ -2606,6 +2613,11 @@ PyObject * RemoveTrailingSpaces(PyObject * self, PyObject * args)
             TrailingSpacesUnicode((uint32_t *)pDataIn1, arraySize1, itemSize);
         }
 
+        if (text.pArray != inArr1 && PyArray_CopyInto(inArr1, text.pArray) < 0)
+        {
+            return NULL;
+        }
+
         Py_IncRef((PyObject *)inArr1);
         return (PyObject *)inArr1;
     }
diff --git a/src/Ema.cpp b/src/Ema.cpp
index cf86b39..3aaa8f7 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2,6 +2,7 @@
 #include "ndarray.h"
 #include "MathWorker.h"
 #include "MultiKey.h"
+#include "Convert.h"
 #include "Ema.h"
 #include "Heap.h"
 
@@ -2624,7 +2625,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2659,7 +2660,7 @@ void mat_interp_extrap(void * xT, void * xpT, void * ypT, void * outT, int64_t N
                 if (xi > xp[0])
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2705,7 +2706,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2739,7 +2740,7 @@ void mat_interp(void * xT, void * xpT, void * ypT, void * outT, int64_t N, int64
                 if (xi > xp0)
                 {
                     int64_t j = 1;
-                    while (xi > xp[j] && j < M)
+                    while (j < M && xi > xp[j])
                         j++;
                     if (j == M)
                     {
@@ -2838,7 +2839,7 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    if (PyArray_NDIM(arr) > 1)
+    if (PyArray_NDIM(arr) != 1 || PyArray_NDIM(xp) == 0)
     {
         PyErr_Format(PyExc_ValueError, "The 1st argument must be 1 dimensional arrays");
         return NULL;
@@ -2915,6 +2916,14 @@ PyObject * InterpExtrap2d(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // read as one block of memory
+    ContiguousInput values(arr);
+    if (! values.pArray)
+    {
+        return NULL;
+    }
+    arr = values.pArray;
+
     // allocate a float or a double
     returnArray = AllocateLikeNumpyArray(arr, dtype);
 
diff --git a/src/TileRepeat.cpp b/src/TileRepeat.cpp
index 5b46e1f..23064a1 100644
--- a/src/TileRepeat.cpp
+++ b/src/TileRepeat.cpp
@@ -190,9 +190,27 @@ PyObject * RecordArrayToColMajor(PyObject * self, PyObject * args)
     }
 
     int64_t totalRows = length;
+
+    if (! PyArray_IS_C_CONTIGUOUS(offsetArr) || PyArray_TYPE(offsetArr) != NPY_INT64 || ! PyArray_IS_C_CONTIGUOUS(arrArr) ||
+        PyArray_TYPE(arrArr) != NPY_OBJECT)
+    {
+        PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor needs contiguous int64 offsets and a contiguous array of arrays");
+        return NULL;
+    }
+
     int64_t * pOffsets = (int64_t *)PyArray_BYTES(offsetArr);
     PyArrayObject ** ppArrays = (PyArrayObject **)PyArray_BYTES(arrArr);
 
+    for (int64_t i = 0; i < numArrays; i++)
+    {
+        if (! ppArrays[i] || ! PyArray_Check(ppArrays[i]) || ! PyArray_IS_C_CONTIGUOUS(ppArrays[i]) ||
+            ArrayLength(ppArrays[i]) < totalRows || pOffsets[i] < 0 || pOffsets[i] + PyArray_ITEMSIZE(ppArrays[i]) > itemSize)
+        {
+            PyErr_Format(PyExc_ValueError, "RecordArrayToColMajor array %lld does not fit the records or is strided", i);
+            return NULL;
+        }
+    }
+
     stOffsets * pstOffset;
 
     pstOffset = (stOffsets *)WORKSPACE_ALLOC(sizeof(stOffsets) * numArrays);
-- 
2.43.0


From 9e69a3a8683784155f7ecf77df1bfd6008fc763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 43/65] fix: recycled arrays kept the attributes of dead
 arrays, byte-swapped arrays were handed out as native

---
 src/Recycler.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index a545ba4..1823b5a 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -555,9 +555,23 @@ PyArrayObject * RecycleFindArray(int32_t ndim, int32_t type, int64_t totalSize)
                     g_FoundRecycled++;
 
                     LOGRECYCLE("Found recycled item %llu  %d %p %p\n", totalSize, type, inArr, PyArray_BYTES(inArr));
+                    // the attributes belonged to the dead array
+                    PyObject * attributes = PyObject_GenericGetDict((PyObject *)inArr, NULL);
+                    if (attributes)
+                    {
+                        PyDict_Clear(attributes);
+                        Py_DECREF(attributes);
+                    }
+                    else
+                    {
+                        PyErr_Clear();
+                    }
+
                     // have to clear the name
-                    Py_INCREF(Py_None);
-                    PyObject_SetAttr((PyObject *)inArr, g_namestring, Py_None);
+                    if (PyObject_SetAttr((PyObject *)inArr, g_namestring, Py_None) != 0)
+                    {
+                        PyErr_Clear();
+                    }
                     return inArr;
                 }
                 else
@@ -628,6 +642,13 @@ static bool FinalizeNumpyArray(PyArrayObject * inArr)
         return false;
     }
 
+    // The cache is indexed by type number, which does not tell the byte order
+    if (! PyArray_ISNOTSWAPPED(inArr))
+    {
+        LOGRECYCLE("Rejected recycling because object is byte swapped.\n");
+        return false;
+    }
+
     if (gRecursion)
     {
         // printf("recursion on %lld  %lld\n", refCount, totalSize);
-- 
2.43.0


From 43aa10166be40da72ed03e0df2ce3b648b2826c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 44/65] fix: grouping several Python threads at once corrupted
 their results (the interpreter lock was released around shared hash tables)

---
 src/MultiKey.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index ab879b7..77e17d4 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1222,13 +1222,10 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
                     "hintsize: %lld  filter: %p  coreType:%d\n",
                     numpyIndexType, mkp.totalRows, mkp.totalItemSize, mkp.hintSize, mkp.pBoolFilter, coreType);
 
-                Py_BEGIN_ALLOW_THREADS
-
-                    numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, coreType,
-                                                        pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray,
-                                                        HASH_MODE(hashMode), mkp.hintSize, mkp.pBoolFilter);
-
-                Py_END_ALLOW_THREADS
+                // Grouping keeps its hash tables in memory shared by all calls: no other Python thread may run meanwhile
+                numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, coreType,
+                                                    pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray, HASH_MODE(hashMode),
+                                                    mkp.hintSize, mkp.pBoolFilter);
 
                     // now one based, so zero reserved
                     //++numUnique;
-- 
2.43.0


From f3c16a42d2cf0d4e3927d137d5f8e0f1e4e48219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 45/65] fix: group, bin, member and running-aggregate calls
 read strided keys as if they were contiguous

---
 src/Ema.cpp        | 10 ++++++++++
 src/GroupBy.cpp    | 17 +++++++++++++++++
 src/HashLinear.cpp |  9 +++++++++
 src/MultiKey.cpp   | 37 ++++++++++++++++++++++++++++++++++---
 src/RipTide.h      | 32 ++++++++++++++++++++++++++++++++
 5 files changed, 102 insertions(+), 3 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 3aaa8f7..b5e2153 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2462,6 +2462,16 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // these are walked as blocks of memory
+    ContiguousArg contiguousIKey(iKey);
+    ContiguousArg contiguousInTime(inTime);
+    ContiguousArg contiguousInIncludeMask(inIncludeMask);
+    ContiguousArg contiguousInResetMask(inResetMask);
+    if (! contiguousIKey || ! contiguousInTime || ! contiguousInIncludeMask || ! contiguousInResetMask)
+    {
+        return NULL;
+    }
+
     int64_t totalArrayLength = ArrayLength(iKey);
 
     if (inResetMask != NULL && (PyArray_TYPE(inResetMask) != 0 || ArrayLength(inResetMask) != totalArrayLength))
diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index cc016b3..f1e91c0 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -4600,6 +4600,13 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // this is walked as one block of memory
+    ContiguousArg contiguousIKey(iKey);
+    if (! contiguousIKey)
+    {
+        return NULL;
+    }
+
     int32_t ndim = PyArray_NDIM(iKey);
 
     if (ndim != 1)
@@ -4891,6 +4898,16 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // these are walked as blocks of memory
+    ContiguousArg contiguousIKey(iKey);
+    ContiguousArg contiguousIGroup(iGroup);
+    ContiguousArg contiguousIFirst(iFirst);
+    ContiguousArg contiguousNCount(nCount);
+    if (! contiguousIKey || ! contiguousIGroup || ! contiguousIFirst || ! contiguousNCount)
+    {
+        return NULL;
+    }
+
     logger->debug("GroupByAllPack32 types: key:{}  group:{}  first:{}  count:{}", PyArray_TYPE(iKey), PyArray_TYPE(iGroup),
                   PyArray_TYPE(iFirst), PyArray_TYPE(nCount));
 
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 89d16e5..80d4a89 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5718,6 +5718,15 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
         if (! PyArg_ParseTuple(args, "O!O!iL", &PyArray_Type, &inArr1, &PyArray_Type, &inArr2, &hashMode, &hintSize))
             return NULL;
     }
+
+    // these are walked as blocks of memory
+    ContiguousArg contiguousInArr1(inArr1);
+    ContiguousArg contiguousInArr2(inArr2);
+    if (! contiguousInArr1 || ! contiguousInArr2)
+    {
+        return NULL;
+    }
+
     NPY_TYPES arrayType1 = static_cast<NPY_TYPES>(PyArray_TYPE(inArr1));
     NPY_TYPES arrayType2 = static_cast<NPY_TYPES>(PyArray_TYPE(inArr2));
 
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 77e17d4..5946c48 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -578,6 +578,13 @@ PyObject * MakeiNext(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // this is walked as one block of memory
+    ContiguousArg contiguousIkey(ikey);
+    if (! contiguousIkey)
+    {
+        return NULL;
+    }
+
     int dtype = PyArray_TYPE(ikey);
 
     // check for only signed ints
@@ -876,6 +883,15 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // these are walked as blocks of memory
+    PyArrayObject * nextGiven = PyArray_Check(nextArray) ? (PyArrayObject *)nextArray : NULL;
+    ContiguousArg contiguousIndex(indexArray);
+    ContiguousArg contiguousNext(nextGiven);
+    if (! contiguousIndex || ! contiguousNext)
+    {
+        return NULL;
+    }
+
     try
     {
         int64_t totalRows = ArrayLength(indexArray);
@@ -888,7 +904,7 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
 
         int32_t * pGroupArray = NULL;
 
-        if (! PyArray_Check(nextArray))
+        if (! nextGiven)
         {
             // Next was not supplied and must be calculated
             bMustFree = true;
@@ -918,12 +934,12 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
         }
         else
         {
-            if (totalRows != ArrayLength((PyArrayObject *)nextArray))
+            if (totalRows != ArrayLength(nextGiven))
             {
                 PyErr_Format(PyExc_ValueError, "GroupByPack32 array length does not match %llu", totalRows);
                 return NULL;
             }
-            pNextArray = (int32_t *)PyArray_BYTES((PyArrayObject *)nextArray);
+            pNextArray = (int32_t *)PyArray_BYTES(nextGiven);
         }
 
         PyObject * sortGroupArray = NULL;
@@ -2089,6 +2105,14 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // these are walked as blocks of memory
+    ContiguousArg contiguousIKey(iKey);
+    ContiguousArg contiguousNCountGroup(nCountGroup);
+    if (! contiguousIKey || ! contiguousNCountGroup)
+    {
+        return NULL;
+    }
+
     int32_t iKeyType = PyArray_TYPE(iKey);
     int64_t totalRows = ArrayLength(iKey);
     int64_t totalUnique = ArrayLength(nCountGroup);
@@ -2443,6 +2467,13 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
+    // this is walked as one block of memory
+    ContiguousArg contiguousIKey(iKey);
+    if (! contiguousIKey)
+    {
+        return NULL;
+    }
+
     int32_t iKeyType = PyArray_TYPE(iKey);
     int64_t totalRows = ArrayLength(iKey);
     int64_t pack = GetPack(kwargs);
diff --git a/src/RipTide.h b/src/RipTide.h
index 7e4edf9..e05d62b 100644
--- a/src/RipTide.h
+++ b/src/RipTide.h
@@ -169,6 +169,38 @@ extern bool ConvertScalarObject(PyObject * inObject1, _m256all * pDest, int16_t
 extern bool ConvertSingleItemArray(void * pInput, int16_t numpyInType, _m256all * pDest, int16_t numpyType);
 extern PyArrayObject * EnsureContiguousArray(PyArrayObject * inObject);
 
+//-----------------------------------------------------------
+// Points an array argument at one block of memory with its values
+// A strided argument is copied, the copy lives as long as this object
+class ContiguousArg
+{
+    PyArrayObject * copied_ = nullptr;
+    bool failed_ = false;
+
+public:
+    explicit ContiguousArg(PyArrayObject *& arr)
+    {
+        if (arr && ! (PyArray_FLAGS(arr) & (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS)))
+        {
+            copied_ = (PyArrayObject *)PyArray_FromAny((PyObject *)arr, NULL, 0, 0, NPY_ARRAY_C_CONTIGUOUS, NULL);
+            failed_ = copied_ == nullptr;
+            arr = copied_;
+        }
+    }
+    ~ContiguousArg()
+    {
+        Py_XDECREF(copied_);
+    }
+    ContiguousArg(ContiguousArg const &) = delete;
+    ContiguousArg & operator=(ContiguousArg const &) = delete;
+
+    // false: out of memory, the Python error is set
+    explicit operator bool() const
+    {
+        return ! failed_;
+    }
+};
+
 extern int64_t NpyItemSize(PyObject * self);
 extern const char * NpyToString(int32_t numpyType);
 extern int32_t NpyToSize(int32_t numpyType);
-- 
2.43.0


From bb0dca35b9d21942528ea7e43b64a473d27f5fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 46/65] fix: EmaAll32 went on after refusing a time, include or
 reset argument that is no array

---
 src/Ema.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index b5e2153..e41ceac 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2436,6 +2436,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inTime))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inTime must be an array");
+            return NULL;
         }
 
         if (inIncludeMask == (PyArrayObject *)Py_None)
@@ -2445,6 +2446,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inIncludeMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inIncludeMask must be an array");
+            return NULL;
         }
 
         if (inResetMask == (PyArrayObject *)Py_None)
@@ -2454,6 +2456,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inResetMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inResetMask must be an array");
+            return NULL;
         }
         break;
 
-- 
2.43.0


From 2f193507fb1aaa3d74e66929e335798ca769c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 47/65] fix: alignment times, merge columns, categorical
 values, shuffles and sorted groups were read as if contiguous

---
 src/HashFunctions.cpp |  9 +++++++++
 src/HashLinear.cpp    | 10 ++++++++++
 src/Merge.cpp         |  7 +++++++
 src/MultiKey.cpp      |  8 ++++++++
 src/Sort.cpp          |  8 ++++++++
 5 files changed, 42 insertions(+)

diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index b10c550..b8755b2 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -63,6 +63,15 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
         if (! PyArg_ParseTuple(args, "O!O!iL", &PyArray_Type, &inArr1, &PyArray_Type, &inArr2, &hashMode, &hintSize))
             return NULL;
     }
+
+    // these are walked as blocks of memory
+    ContiguousArg contiguousInArr1(inArr1);
+    ContiguousArg contiguousInArr2(inArr2);
+    if (! contiguousInArr1 || ! contiguousInArr2)
+    {
+        return NULL;
+    }
+
     int32_t arrayType1 = PyArray_TYPE(inArr1);
     int32_t arrayType2 = PyArray_TYPE(inArr2);
 
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 80d4a89..be1f2da 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -6178,6 +6178,16 @@ PyObject * MergeBinnedAndSorted(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // these are walked as blocks of memory
+    ContiguousArg contiguousKey1(key1);
+    ContiguousArg contiguousKey2(key2);
+    ContiguousArg contiguousPvalArray1(pvalArray1);
+    ContiguousArg contiguousPvalArray2(pvalArray2);
+    if (! contiguousKey1 || ! contiguousKey2 || ! contiguousPvalArray1 || ! contiguousPvalArray2)
+    {
+        return NULL;
+    }
+
     LOGGING("Unique size %lld\n", totalUniqueSize);
     int32_t dtype1 = ObjectToDtype((PyArrayObject *)pvalArray1);
     int32_t dtype2 = ObjectToDtype((PyArrayObject *)pvalArray2);
diff --git a/src/Merge.cpp b/src/Merge.cpp
index e2d3040..150ce3e 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1970,6 +1970,13 @@ PyObject * ReverseShuffle(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // this is walked as one block of memory
+    ContiguousArg contiguousIkey(ikey);
+    if (! contiguousIkey)
+    {
+        return NULL;
+    }
+
     stReverseIndex preindex;
 
     int dtype = PyArray_TYPE(ikey);
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 5946c48..3c276af 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1777,6 +1777,14 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // these are walked as blocks of memory
+    ContiguousArg contiguousPvalArray1(pvalArray1);
+    ContiguousArg contiguousPvalArray2(pvalArray2);
+    if (! contiguousPvalArray1 || ! contiguousPvalArray2)
+    {
+        return NULL;
+    }
+
     CMultiKeyPrepare mkp1(tupleObject1);
     CMultiKeyPrepare mkp2(tupleObject2);
 
diff --git a/src/Sort.cpp b/src/Sort.cpp
index 1c23402..e2a7d96 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -4384,6 +4384,14 @@ PyObject * GroupFromLexSort(PyObject * self, PyObject * args, PyObject * kwargs)
         return PyErr_Format(PyExc_TypeError, "Invalid argument types and/or count for GroupFromLexSort.");
     }
 
+    // these are walked as blocks of memory
+    ContiguousArg contiguousInArrSortIndex(inArrSortIndex);
+    ContiguousArg contiguousInArrValues(inArrValues);
+    if (! contiguousInArrSortIndex || ! contiguousInArrValues)
+    {
+        return NULL;
+    }
+
     const auto arrLength = ArrayLength(inArrSortIndex);
     const auto arrLengthValues = ArrayLength(inArrValues);
 
-- 
2.43.0


From eb2240b7caae051434fb286768870ec280f53619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 48/65] fix: Where read the wrong items when its inputs lie at
 addresses that are no whole items apart

---
 src/BasicMath.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index e2b9605..51fb39b 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3668,17 +3668,14 @@ bool WhereCallback(void * callbackArgT, int core, int64_t start, int64_t length)
                 //__m128i* pCondition128 = (__m128i*)pCondition;
                 //__m128i condition = _mm_min_epu8(*pCondition128, allones);
 
-                // calculate the address delta since we know input1 and input2 are the
-                // same itemsize assumes 64bit addressing
-                uint64_t delta = pInput2 - pInput1;
+                // The inputs can be any number of bytes apart (not only whole items), so
+                // select the source by its address rather than by an item offset.
                 uint64_t ulength = (uint64_t)length;
 
                 for (uint64_t i = 0; i < ulength; i++)
                 {
-                    // The condition is either 1 or 0.  if 1 we use the address delta to get
-                    // from input2 to input1
-                    uint64_t test = pCondition[i] == 0;
-                    pOutput[i] = pInput1[i + delta * test];
+                    const T * pSource = pCondition[i] ? pInput1 : pInput2;
+                    pOutput[i] = pSource[i];
                 }
 
                 // This is slower on msft windows compiler
-- 
2.43.0


From 0d405da20247bf84e771d9870f4989afbfb46796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 49/65] fix: Where returned a value together with an error when
 its choices do not fit the condition

---
 src/BasicMath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 51fb39b..b4e008d 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -4044,6 +4044,12 @@ PyObject * Where(PyObject * self, PyObject * args)
         return nullptr;
     }
 
+    // the inputs do not fit the condition
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
+
     // punt to numpy
     Py_INCREF(Py_None);
     return Py_None;
-- 
2.43.0


From 0f79e3e00d9b94f8730ca63a28036bb603fecb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 50/65] fix: disabling logging could wait for a whole flush
 interval when a wake-up got lost

---
 src/logging/timer.h         | 12 +++++++-----
 src/logging/waiting_deque.h |  6 +++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/logging/timer.h b/src/logging/timer.h
index 6e29ab6..fae412d 100644
--- a/src/logging/timer.h
+++ b/src/logging/timer.h
@@ -31,16 +31,18 @@ namespace riptide::logging::details
 
             auto run = [=, this]()
             {
-                while (active_)
+                while (true)
                 {
                     {
                         std::unique_lock lk{ lock_ };
-                        wake_.wait_for(lk, delay);
+                        auto cancelled = [this]
+                        {
+                            return ! active_;
+                        };
+                        if (wake_.wait_for(lk, delay, cancelled))
+                            return;
                     }
 
-                    if (! active_)
-                        return;
-
                     function();
                 }
             };
diff --git a/src/logging/waiting_deque.h b/src/logging/waiting_deque.h
index 128f2cc..11d3df0 100644
--- a/src/logging/waiting_deque.h
+++ b/src/logging/waiting_deque.h
@@ -57,7 +57,11 @@ namespace riptide::logging::details
 
         void cancel_wait() noexcept
         {
-            wait_ = false;
+            {
+                // a waiter must not miss this between its test and its sleep
+                std::lock_guard guard{ lock_ };
+                wait_ = false;
+            }
             notify_.notify_one();
         }
 
-- 
2.43.0


From 7c0a5be0c60212245d9d4369de29163a26677ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 51/65] fix: a message logged while logging was being disabled
 stayed queued and kept logging from being enabled again

---
 src/logging/logging_service.h | 4 +++-
 src/logging/waiting_deque.h   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logging/logging_service.h b/src/logging/logging_service.h
index 8128974..2c988c6 100644
--- a/src/logging/logging_service.h
+++ b/src/logging/logging_service.h
@@ -112,12 +112,12 @@ namespace riptide::logging
             if (not shutdown_)
                 return;
 
-            shutdown_ = false;
             interval_ = config.flush_interval;
             batch_size_ = config.batch_size;
             max_size_ = config.max_size;
 
             logs_.set_max_size(max_size_);
+            shutdown_ = false;
 
             flusher_.set_interval(
                 [this]
@@ -132,6 +132,8 @@ namespace riptide::logging
             if (shutdown_)
                 return;
 
+            // from here on nothing more gets in: what came after the handler has gone would stay forever
+            logs_.set_max_size(0);
             shutdown();
             wakeup();
 
diff --git a/src/logging/waiting_deque.h b/src/logging/waiting_deque.h
index 11d3df0..6a7cedc 100644
--- a/src/logging/waiting_deque.h
+++ b/src/logging/waiting_deque.h
@@ -67,6 +67,7 @@ namespace riptide::logging::details
 
         void set_max_size(const uint32_t size) noexcept
         {
+            std::lock_guard guard{ lock_ };
             max_size_ = size;
         }
 
-- 
2.43.0


From 39dbde4d18e0322f9eb99b43c46909bdcf811252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 52/65] fix: enabling and disabling logging from several
 threads at once ended the process or returned too early

---
 src/Logger.cpp                | 11 ++++++--
 src/logging/logging_service.h | 50 ++++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/Logger.cpp b/src/Logger.cpp
index 237a6d1..331f4ba 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -189,9 +189,12 @@ PyObject * EnableLogging(PyObject * self, PyObject * args)
     if (PyFunction_Check(callback))
         exception_callback = callback;
 
-    service->enable({ .batch_size = bsize, .flush_interval = std::chrono::milliseconds(interval), .max_size = msize });
     UpdateLogLevel();
-    service->set_handler(LoggingHandler);
+
+    // may have to wait for another thread that is disabling, whose last messages need the interpreter lock
+    Py_BEGIN_ALLOW_THREADS;
+    service->enable({ .batch_size = bsize, .flush_interval = std::chrono::milliseconds(interval), .max_size = msize }, LoggingHandler);
+    Py_END_ALLOW_THREADS;
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -212,6 +215,10 @@ PyObject * DisableLogging(PyObject * self, PyObject * args)
 {
     if (! service->active())
     {
+        // another thread may be disabling: return when it is done
+        Py_BEGIN_ALLOW_THREADS;
+        service->disable();
+        Py_END_ALLOW_THREADS;
         Py_INCREF(Py_None);
         return Py_None;
     }
diff --git a/src/logging/logging_service.h b/src/logging/logging_service.h
index 2c988c6..c75c9b8 100644
--- a/src/logging/logging_service.h
+++ b/src/logging/logging_service.h
@@ -109,26 +109,22 @@ namespace riptide::logging
 
         void enable(const log_config config = log_config())
         {
-            if (not shutdown_)
-                return;
-
-            interval_ = config.flush_interval;
-            batch_size_ = config.batch_size;
-            max_size_ = config.max_size;
-
-            logs_.set_max_size(max_size_);
-            shutdown_ = false;
+            std::lock_guard guard{ control_ };
+            start(config);
+        }
 
-            flusher_.set_interval(
-                [this]
-                {
-                    wakeup();
-                },
-                interval_);
+        // Enables and starts the handler in one step, so that a disable from another thread finds both or neither.
+        template <class Handler>
+        void enable(const log_config config, Handler handler)
+        {
+            std::lock_guard guard{ control_ };
+            if (start(config))
+                set_handler(handler);
         }
 
         void disable(const std::optional<std::chrono::milliseconds> timeout = std::nullopt)
         {
+            std::lock_guard guard{ control_ };
             if (shutdown_)
                 return;
 
@@ -186,11 +182,35 @@ namespace riptide::logging
         }
 
     private:
+        bool start(const log_config & config)
+        {
+            if (not shutdown_)
+                return false;
+
+            interval_ = config.flush_interval;
+            batch_size_ = config.batch_size;
+            max_size_ = config.max_size;
+
+            logs_.set_max_size(max_size_);
+            shutdown_ = false;
+
+            flusher_.set_interval(
+                [this]
+                {
+                    wakeup();
+                },
+                interval_);
+            return true;
+        }
+
         details::waiting_deque<log_record> logs_;
         details::timer flusher_;
 
         std::thread handler_;
 
+        // one thread at a time enables or disables
+        std::mutex control_;
+
         std::atomic<bool> shutdown_ = true;
 
         uint32_t batch_size_;
-- 
2.43.0


From a956c17e58c063518dde725a245674db4f6e08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 53/65] fix: EnableLogging with no interval or batch size hung
 instead of refusing

---
 src/Logger.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Logger.cpp b/src/Logger.cpp
index 331f4ba..58e7cd0 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -182,6 +182,13 @@ PyObject * EnableLogging(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    // the handler would never take a message from the queue
+    if (interval < 1 || bsize < 1)
+    {
+        PyErr_Format(PyExc_ValueError, "EnableLogging: the interval and the batch size must be at least 1");
+        return NULL;
+    }
+
     // reset previous exception or callbacks
     exception_message = std::nullopt;
     exception_callback = std::nullopt;
-- 
2.43.0


From bceb29d8b470ce932ee52d00f9649231356d5551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 54/65] fix: every log message leaked its record, its timestamp
 was cut to 32 bits, and the callback was not kept alive

---
 src/Logger.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/Logger.cpp b/src/Logger.cpp
index 58e7cd0..be7c330 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -24,15 +24,19 @@ namespace
         for (const auto & [name, sink] : sinks)
         {
             auto level_attr = PyObject_GetAttrString(sink, "level");
+            if (! level_attr)
+            {
+                PyErr_Clear();
+                continue;
+            }
             if (! PyLong_Check(level_attr))
             {
-                Py_XDECREF(level_attr);
+                Py_DECREF(level_attr);
                 continue;
-                ;
             }
 
             int32_t level = PyLong_AsLong(level_attr);
-            Py_XDECREF(level_attr);
+            Py_DECREF(level_attr);
 
             auto logger{ riptide::logging::get_logger(name) };
             if (level >= static_cast<int>(loglevel::notset) and level <= static_cast<int>(loglevel::critical))
@@ -104,7 +108,10 @@ namespace
 
                     auto log_method{ PyObject_GetAttrString(sink, "log") };
                     if (not log_method)
+                    {
+                        PyErr_Clear();
                         continue;
+                    }
 
                     auto source_loc{ msg.loc };
 
@@ -112,19 +119,23 @@ namespace
                                                     source_loc.line(), "column", source_loc.column(), "function",
                                                     source_loc.function_name()) };
 
-                    auto timestamp_ns{ msg.time.time_since_epoch().count() };
+                    long long timestamp_ns{ msg.time.time_since_epoch().count() };
 
-                    auto extra{ Py_BuildValue("{s:O, s:I}", "source_info", source_info, "timestamp", timestamp_ns) };
+                    auto extra{ Py_BuildValue("{s:N, s:L}", "source_info", source_info, "timestamp", timestamp_ns) };
 
                     auto args{ Py_BuildValue("(iN)", static_cast<int>(msg.level),
                                              PyUnicode_Decode(msg.message.c_str(), msg.message.size(), NULL, "replace")) };
-                    auto kwargs{ Py_BuildValue("{s:O}", "extra", extra) };
+                    auto kwargs{ Py_BuildValue("{s:N}", "extra", extra) };
 
                     if (args and kwargs)
                     {
                         auto res{ PyObject_Call(log_method, args, kwargs) };
+                        if (! res)
+                            PyErr_WriteUnraisable(log_method);
                         Py_XDECREF(res);
                     }
+                    Py_XDECREF(args);
+                    Py_XDECREF(kwargs);
                     Py_DECREF(log_method);
                 }
 
@@ -191,10 +202,15 @@ PyObject * EnableLogging(PyObject * self, PyObject * args)
 
     // reset previous exception or callbacks
     exception_message = std::nullopt;
+    if (exception_callback)
+        Py_DECREF(exception_callback.value());
     exception_callback = std::nullopt;
 
     if (PyFunction_Check(callback))
+    {
+        Py_INCREF(callback);
         exception_callback = callback;
+    }
 
     UpdateLogLevel();
 
-- 
2.43.0


From d15c28447e9ad82ec143d36619587990d15683e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 55/65] fix: a process that exited with logging enabled was
 aborted and lost its messages

---
 src/RipTide.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 1077bb2..b147e44 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -1887,6 +1887,17 @@ PyMODINIT_FUNC PyInit_riptide_cpp()
 
     g_FastArrayModule = m;
 
+    // deliver what is still queued while the interpreter works; its finalization would kill the handler thread with an exception
+    PyObject * atexitModule = PyImport_ImportModule("atexit");
+    PyObject * disableLogging = PyObject_GetAttrString(m, "DisableLogging");
+    PyObject * registered =
+        atexitModule && disableLogging ? PyObject_CallMethod(atexitModule, "register", "Oi", disableLogging, -1) : NULL;
+    if (! registered)
+        PyErr_Clear();
+    Py_XDECREF(registered);
+    Py_XDECREF(disableLogging);
+    Py_XDECREF(atexitModule);
+
     // Set the version
     PyObject_SetAttrString(m, "__version__", Py_BuildValue("s", __version__));
 
-- 
2.43.0


From 3bd5980030e77eb6ef273842cdf6213b1d8ac260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 56/65] fix: the last message logged before logging was
 disabled could be lost and kept logging from being enabled again

---
 src/logging/logging_service.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logging/logging_service.h b/src/logging/logging_service.h
index c75c9b8..122beed 100644
--- a/src/logging/logging_service.h
+++ b/src/logging/logging_service.h
@@ -89,7 +89,8 @@ namespace riptide::logging
 
         bool active() noexcept
         {
-            return ! logs_.empty() or ! shutdown_;
+            // in this order: once shut down, nothing more gets in and an empty queue stays empty
+            return ! shutdown_ or ! logs_.empty();
         }
 
         bool enabled() noexcept
-- 
2.43.0


From 18112da2b359e41f9fe4295c82c84ebdfe1fb5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 57/65] fix: reading several files of which one is missing
 returned a value together with an error

---
 src/SDSFile.cpp       | 15 +++++++++++++++
 src/SDSFilePython.cpp |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index c522261..119547b 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -3528,6 +3528,9 @@ public:
     bool IsFileValid = false;
     bool IsFileValidAndNotFilteredOut = false;
 
+    // Set to true when the file could not be opened
+    bool IsFileMissing = false;
+
     //------------------------------------------------
     // constructor
     // pInclude = NULL is allowed
@@ -3893,6 +3896,7 @@ public:
         {
             SetErr_Format(SDS_VALUE_ERROR, "Decompression error cannot create/open file: %s.  Error: %s", fileName,
                           GetLastErrorMessage());
+            IsFileMissing = true;
             return BAD_SDS_HANDLE;
         }
 
@@ -6944,6 +6948,17 @@ public:
             return NULL;
         }
 
+        // files that need not exist are no error next to files that do
+        bool onlyMissing = validCount > 0 && missingfile >= 0;
+        for (int32_t t = 0; onlyMissing && t < FileCount; t++)
+        {
+            onlyMissing = pSDSDecompressFile[t]->IsFileValid || pSDSDecompressFile[t]->IsFileMissing;
+        }
+        if (onlyMissing)
+        {
+            ClearErrors();
+        }
+
         logger->debug(
             "GetInfo ReadManyFiles complete.  FileCount {}. valid {}.  "
             "mode:{}",
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 489d1ba..80ba3e7 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1919,7 +1919,7 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
         return NULL;
     }
 
-    if (isThereAnError && fileCount == 1)
+    if (isThereAnError)
     {
         // result is good, but there is an error.  decrement the result so we can
         // get rid of it
-- 
2.43.0


From eefcf13455979d377f860b5cee97833d97a41bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 58/65] fix: sorted cuts returned None together with an error
 when the edges are refused

---
 src/Bins.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index e603bd4..24574ca 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -737,10 +737,12 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     if (PyArray_TYPE(binArr1) != NPY_DOUBLE)
     {
         PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
+        return NULL;
     }
     else if (ArrayLength(binArr1) == 0)
     {
         PyErr_Format(PyExc_ValueError, "bin array must not be empty");
+        return NULL;
     }
     else
     {
-- 
2.43.0


From 154d0bcf96bc3ed600c49c5313cc8fdae42fb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 59/65] fix: shared memory names are checked for their length
 and kept per thread

---
 src/SDSFile.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 119547b..f9186b7 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1041,7 +1041,8 @@ public:
     // Derives a sharename from a filename
     // NOTE: Often called first before creating memory share
     // On return SharedMemoryName is set
-    void MakeShareName(const char * pszFilename, const char * shareName)
+    // Returns false if the name is too long
+    bool MakeShareName(const char * pszFilename, const char * shareName)
     {
         //
         // Break off any \ or : or / in the file
@@ -1071,6 +1072,13 @@ public:
 #else
             const char * pPrefix = "Global_";
 #endif
+            // prefix, share name, bang, filename part and zero
+            if (strlen(pPrefix) + strlen(shareName) + 1 + strlen(pMappingName) + 1 > sizeof(SharedMemoryName))
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Shared memory name is too long for file: %s", pszFilename);
+                return false;
+            }
+
             // copy over prefix
             while ((*pStart++ = *pPrefix++))
                 ;
@@ -1091,9 +1099,12 @@ public:
                 ;
             logger->debug("Shared memory name is {}", SharedMemoryName);
         }
+        return true;
     }
+};
 
-} DefaultMemoryIO;
+// the memory the calling thread is working on
+static thread_local SharedMemory DefaultMemoryIO;
 
 class SDSIncludeExclude
 {
@@ -2961,7 +2972,10 @@ bool SDSWriteFileInternal(const char * fileName,
             logger->debug("Making sharedname {}", shareName);
 
             // Try to allocate sharename
-            DefaultMemoryIO.MakeShareName(fileName, shareName);
+            if (! DefaultMemoryIO.MakeShareName(fileName, shareName))
+            {
+                return false;
+            }
 
             // Calculate size of shared memory
             int64_t totalSize = CalculateSharedMemorySize(pFileHeader, NULL);
@@ -4458,7 +4472,10 @@ public:
         if (ShareName)
         {
             // Place GLOBAL in front or other variations to make a sharename
-            DefaultMemoryIO.MakeShareName(FileName, ShareName);
+            if (! DefaultMemoryIO.MakeShareName(FileName, ShareName))
+            {
+                return NULL;
+            }
 
             // Check for previous existence first
             HRESULT result = DefaultMemoryIO.MapExisting();
-- 
2.43.0


From 66aa689915764567b9434ff55c2ce50c13bd3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 60/65] fix: shared datasets become visible when completely
 written, or not at all

---
 src/SDSFile.cpp      | 76 +++++++++++++++++++++++++++++++++++++++-----
 src/SharedMemory.cpp | 28 +++++++++++++---
 src/SharedMemory.h   |  3 ++
 3 files changed, 94 insertions(+), 13 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index f9186b7..5024528 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -11,6 +11,7 @@
 #include "logging/logging.h"
 
 #include "MathWorker.h"
+#include <atomic>
 #include <stdarg.h>
 #include <string.h>
 #include <string_view>
@@ -1019,14 +1020,44 @@ public:
     {
         HRESULT hr = SharedMemoryCopy(SharedMemoryName, &pMapStruct, true);
 
-        if (hr > 0)
+        if (hr >= 0 && pMapStruct)
         {
-            AddSharedMemory(SharedMemoryName, pMapStruct, NULL);
+#if ! defined(_WIN32)
+            // not, or not completely written
+            if (pMapStruct->FileSize < (int64_t)sizeof(SDS_FILE_HEADER) || ! IsPublished())
+            {
+                UtilSharedMemoryEnd(pMapStruct);
+                pMapStruct = NULL;
+                return -1;
+            }
+#endif
         }
 
         return hr;
     }
 
+    //----------------------------------------------
+    // The header's magic is written last
+    bool IsPublished()
+    {
+        return std::atomic_ref(GetFileHeader()->SDSHeaderMagic).load(std::memory_order_acquire) == SDS_MAGIC &&
+               GetFileHeader()->VersionHigh == SDS_VERSION_HIGH;
+    }
+
+    void Publish()
+    {
+        std::atomic_ref(GetFileHeader()->SDSHeaderMagic).store(SDS_MAGIC, std::memory_order_release);
+    }
+
+    //----------------------------------------------
+    // Removes what could not be written completely
+    void Discard(const char * name)
+    {
+#if ! defined(_WIN32)
+        UtilSharedMemoryDelete(name);
+#endif
+    }
+
     void Destroy()
     {
         SharedMemoryName[0] = 0;
@@ -2879,7 +2910,7 @@ int64_t CalculateSharedMemorySize(SDS_FILE_HEADER * pFileHeader, SDS_ARRAY_BLOCK
     #include <setjmp.h>
     #include <signal.h>
 
-jmp_buf sigbus_jmp;
+sigjmp_buf sigbus_jmp;
 
     /* sighandler_t is a GNU extension; if it's not available, just define it with a
      * typedef. */
@@ -2892,8 +2923,7 @@ sighandler_t sigbus_orighandler;
 void sigbus_termination_handler(int32_t signum)
 {
     // try to recover
-    // NOTE: consider changing to siglongjmp
-    longjmp(sigbus_jmp, 1);
+    siglongjmp(sigbus_jmp, 1);
     // printf("BUS Error while writing to linux shared memory.\n");
 }
 #endif
@@ -2990,13 +3020,15 @@ bool SDSWriteFileInternal(const char * fileName,
 
             // Make sure we can allocate it
             HRESULT hr = DefaultMemoryIO.Begin(totalSize);
+            const std::string memoryName = DefaultMemoryIO.SharedMemoryName;
+            volatile bool written = false;
 
             if (hr >= 0)
             {
 #if defined(_WIN32)
                 // For windows consider MS _try to catch more exceptions
 #else
-                if (setjmp(sigbus_jmp) == 0)
+                if (sigsetjmp(sigbus_jmp, 1) == 0)
                 {
                     // for linux handle SIGBUS, other errors
                     sigbus_orighandler = signal(SIGBUS, sigbus_termination_handler);
@@ -3007,7 +3039,8 @@ bool SDSWriteFileInternal(const char * fileName,
                     SDS_FILE_HEADER * pMemoryFileHeader = DefaultMemoryIO.GetFileHeader();
 
                     logger->debug("Writing header to {} from {}", (void *)pMemoryFileHeader, (void *)pFileHeader);
-                    // Step 1: copy fileheader
+                    // Step 1: copy fileheader, which becomes valid at the end
+                    pFileHeader->SDSHeaderMagic = 0;
                     memcpy(pMemoryFileHeader, pFileHeader, sizeof(SDS_FILE_HEADER));
 
                     logger->debug("Step 2");
@@ -3058,6 +3091,12 @@ bool SDSWriteFileInternal(const char * fileName,
                             pDestArrayBlock[arrayNumber].Dimensions[j] = aInfo[arrayNumber].Dimensions[j];
                             pDestArrayBlock[arrayNumber].Strides[j] = aInfo[arrayNumber].Strides[j];
                         }
+                        // a scalar is stored as an array of one item
+                        if (aInfo[arrayNumber].NDim < 1)
+                        {
+                            pDestArrayBlock[arrayNumber].Dimensions[0] = aInfo[arrayNumber].ArrayLength;
+                            pDestArrayBlock[arrayNumber].Strides[0] = aInfo[arrayNumber].ItemSize;
+                        }
                         pDestArrayBlock[arrayNumber].Flags = aInfo[arrayNumber].Flags;
                         pDestArrayBlock[arrayNumber].DType = aInfo[arrayNumber].NumpyDType;
                         pDestArrayBlock[arrayNumber].ItemSize = (int32_t)aInfo[arrayNumber].ItemSize;
@@ -3082,6 +3121,8 @@ bool SDSWriteFileInternal(const char * fileName,
                                aInfo[arrayNumber].pData, pDestArrayBlock[arrayNumber].ArrayUncompressedSize);
                     }
 
+                    DefaultMemoryIO.Publish();
+                    written = true;
                     logger->debug("Succeeded in copying memory");
                     // Keep handle open?
                 }
@@ -3106,11 +3147,20 @@ bool SDSWriteFileInternal(const char * fileName,
                 // For linux ok to close it since /dev/shm has it
                 DefaultMemoryIO.Destroy();
 #endif
+                if (! written)
+                {
+                    DefaultMemoryIO.Discard(memoryName.c_str());
+                }
             }
             else
             {
                 logger->error("!!Failed to create shared memory");
             }
+            if (! written)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write shared memory for file: %s", fileName);
+                return false;
+            }
         }
         else
         {
@@ -4093,12 +4143,16 @@ public:
 
                 // The memory header
                 // Shared memory is stored uncompressed
-                FillFileHeader(pMemoryFileHeader, 0, COMPRESSION_MODE_SHAREDMEMORY, COMPRESSION_TYPE_NONE,
+                // and becomes valid at the end
+                SDS_FILE_HEADER memoryFileHeader;
+                FillFileHeader(&memoryFileHeader, 0, COMPRESSION_MODE_SHAREDMEMORY, COMPRESSION_TYPE_NONE,
                                0, // comp level
                                pFileHeader->FileType,
                                0, // stack Type
                                pFileHeader->AuthorId, pFileHeader->NameBlockSize, pFileHeader->NameBlockCount,
                                pFileHeader->TotalMetaUncompressedSize, pFileHeader->ArraysWritten, 0);
+                memoryFileHeader.SDSHeaderMagic = 0;
+                memcpy(pMemoryFileHeader, &memoryFileHeader, sizeof(SDS_FILE_HEADER));
 
                 logger->debug("Fill name block");
 
@@ -4205,6 +4259,7 @@ public:
                     }
 
                     pMemoryFileHeader->ArraysWritten = arrayCount;
+                    DefaultMemoryIO.Publish();
                     logger->debug("End fill array block {}", arrayCount);
                     ;
                     return true;
@@ -4498,6 +4553,11 @@ public:
                     if (! bResult)
                     {
                         logger->debug("Failed to alloc shared memory for {}", FileName);
+                        // nobody may take what was copied so far for the file
+                        if (DefaultMemoryIO.pMapStruct)
+                        {
+                            DefaultMemoryIO.Discard(DefaultMemoryIO.SharedMemoryName);
+                        }
                         DefaultMemoryIO.Destroy();
                     }
                 }
diff --git a/src/SharedMemory.cpp b/src/SharedMemory.cpp
index 202727d..e09ad94 100644
--- a/src/SharedMemory.cpp
+++ b/src/SharedMemory.cpp
@@ -761,9 +761,11 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t size, PMAPPED_VIEW_STRU
 
     // Needed when non MAP_ANONYMOUS
     int result = ftruncate(fd, size);
-    if (result && errno < 0)
+    if (result)
     {
-        printf("Error UtilSharedMemoryCopy ftruncate: %s\n", strerror(errno));
+        printf("Error UtilSharedMemoryBegin ftruncate: %s\n", strerror(errno));
+        close(fd);
+        shm_unlink(pMappingName);
         return -1;
     }
 
@@ -774,8 +776,12 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t size, PMAPPED_VIEW_STRU
     if (memaddress == (void *)-1)
     {
         printf("Error UtilSharedMemoryBegin mmap: %s\n", strerror(errno));
+        close(fd);
+        shm_unlink(pMappingName);
         return -1;
     }
+    // the mapping stays
+    close(fd);
 
     LOGGING("Linux: shared memory %s at %p  with size:%lld\n", pMappingName, memaddress, (long long)size);
 
@@ -786,7 +792,7 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t size, PMAPPED_VIEW_STRU
 
     // The remaining parameters to `mmap()` are not important for this use case,
     // but the manpage for `mmap` explains their purpose.
-    pMappedViewStruct->FileHandle = fd;
+    pMappedViewStruct->FileHandle = -1;
     pMappedViewStruct->FileSize = size;
     pMappedViewStruct->BaseAddress = memaddress;
 
@@ -839,13 +845,18 @@ UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStr
     if (errno < 0)
     {
         printf("Error UtilSharedMemoryCopy fstat: %s\n", strerror(errno));
+        close(fd);
         return -1;
     }
 
     void * memaddress = mmap(NULL, size, protection, visibility, fd, 0);
+    int mapError = errno;
+    // the mapping stays
+    close(fd);
 
     if (memaddress == (void *)-1)
     {
+        errno = mapError;
         printf("Error UtilSharedMemoryCopy mmap: %s  %lld\n", strerror(errno), (long long)size);
         return -1;
     }
@@ -859,7 +870,7 @@ UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStr
 
     // The remaining parameters to `mmap()` are not important for this use case,
     // but the manpage for `mmap` explains their purpose.
-    pMappedViewStruct->FileHandle = fd;
+    pMappedViewStruct->FileHandle = -1;
     pMappedViewStruct->FileSize = size;
     pMappedViewStruct->BaseAddress = memaddress;
 
@@ -872,10 +883,17 @@ UtilSharedMemoryEnd(PMAPPED_VIEW_STRUCT pMappedViewStruct)
 {
     LOGGING("Closing linux shared memory\n");
     munmap(pMappedViewStruct->BaseAddress, pMappedViewStruct->FileSize);
-    close(pMappedViewStruct->FileHandle);
 
     WORKSPACE_FREE(pMappedViewStruct);
     return 0;
 }
 
+//-------------------------------------------------
+// Removes the name; mappings stay
+HRESULT
+UtilSharedMemoryDelete(const char * pMappingName)
+{
+    return shm_unlink(pMappingName);
+}
+
 #endif
diff --git a/src/SharedMemory.h b/src/SharedMemory.h
index 497502f..7e4e53d 100644
--- a/src/SharedMemory.h
+++ b/src/SharedMemory.h
@@ -66,5 +66,8 @@ UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStr
 HRESULT
 UtilSharedMemoryEnd(PMAPPED_VIEW_STRUCT pMappedViewStruct);
 
+HRESULT
+UtilSharedMemoryDelete(const char * pMappingName);
+
 #endif
 #endif
-- 
2.43.0


From be949d653c1210fdad8f0d11350ab699ebe8b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 61/65] fix: mappings and descriptors of shared datasets are
 released with their arrays

---
 src/SDSFile.cpp       | 22 +++++++++-------------
 src/SDSFilePython.cpp | 25 ++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 5024528..9375bb3 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -886,19 +886,11 @@ void AddSharedMemory(const char * name, PMAPPED_VIEW_STRUCT pmvs, void * pointer
     // printf("in add shared memory\n");
 
     std::string sname = std::string(name);
-    if (g_SMMap.find(sname) == g_SMMap.end())
-    {
-        // not found
-        g_SMMap[sname] = pmvs;
+    // a previous mapping of that name may be gone by now
+    g_SMMap[sname] = pmvs;
 
-        // init ref count
-        pmvs->RefCount = 1;
-    }
-    else
-    {
-        // increment reference
-        g_SMMap[sname]->RefCount++;
-    }
+    // init ref count
+    pmvs->RefCount = 1;
 }
 
 //------------------------------------------------------------------------------------------
@@ -1007,7 +999,10 @@ public:
         }
         else
         {
+#if defined(_WIN32)
+            // keeps the memory, which goes away with its last handle
             AddSharedMemory(SharedMemoryName, pMapStruct, NULL);
+#endif
         }
 
         SharedMemorySize = Size;
@@ -4575,7 +4570,8 @@ public:
                 SMCB.pMapStruct = DefaultMemoryIO.pMapStruct;
 
                 void * retObject = pReadCallbacks->ReadMemoryCallback(&SMCB);
-                // Leave shared memory open DefaultMemoryIO.Destroy();
+                // Leave shared memory open: what was read from it owns it now
+                DefaultMemoryIO.pMapStruct = NULL;
                 return retObject;
                 // NOTE: On Linux if file persists in /dev/shm/Global then when is it ok
                 // to close it?
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 80ba3e7..a760839 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -882,6 +882,18 @@ void * ReadFromSharedMemory(SDS_SHARED_MEMORY_CALLBACK * pSMCB)
     PyObject * pListName = NULL;
     LOGGING("Reading from shared memory\n");
 
+    // Owns the mapping; every array refers to it
+    PyObject * mapping = PyCapsule_New(pSMCB->pMapStruct, NULL,
+                                       [](PyObject * capsule)
+                                       {
+                                           CloseSharedMemory(PyCapsule_GetPointer(capsule, NULL));
+                                       });
+    if (! mapping)
+    {
+        CloseSharedMemory(pSMCB->pMapStruct);
+        return NULL;
+    }
+
     //----------- LOAD ARRAY NAMES -------------------------
     int64_t nameSize = pFileHeader->NameBlockSize;
     if (nameSize)
@@ -904,7 +916,9 @@ void * ReadFromSharedMemory(SDS_SHARED_MEMORY_CALLBACK * pSMCB)
 
     if (mode == COMPRESSION_MODE_INFO)
     {
-        return GetSDSFileInfo(pListName, pystring, arrayCount, GetArrayBlock(baseOffset, 0), pFileHeader);
+        PyObject * info = (PyObject *)GetSDSFileInfo(pListName, pystring, arrayCount, GetArrayBlock(baseOffset, 0), pFileHeader);
+        Py_DECREF(mapping);
+        return info;
     }
 
     PyObject * returnTuple = PyTuple_New(arrayCount);
@@ -939,6 +953,14 @@ void * ReadFromSharedMemory(SDS_SHARED_MEMORY_CALLBACK * pSMCB)
         {
             // Make it read only since in shared memory
             ClearWriteableFlag(pArray);
+
+            PyArrayObject * pRoot = pArray;
+            while (PyArray_BASE(pRoot) && PyArray_Check(PyArray_BASE(pRoot)))
+            {
+                pRoot = (PyArrayObject *)PyArray_BASE(pRoot);
+            }
+            Py_INCREF(mapping);
+            PyArray_SetBaseObject(pRoot, mapping);
             PyTuple_SetItem(returnTuple, i, (PyObject *)pArray);
         }
         else
@@ -949,6 +971,7 @@ void * ReadFromSharedMemory(SDS_SHARED_MEMORY_CALLBACK * pSMCB)
     }
 
     PyObject * pDict = GetFileHeaderDict(pFileHeader, NULL);
+    Py_DECREF(mapping);
 
     // Create and return an SDSFileInfo namedtuple.
     PyObject * returnTupleTuple = Create_SDSFileInfo(pystring, returnTuple, pListName, pDict);
-- 
2.43.0


From 67581af4d5129d75b11c0727fd785d12d3ce5f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 62/65] fix: damaged compressed strings claiming more than the
 largest possible size raised SystemError

---
 src/Compress.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Compress.cpp b/src/Compress.cpp
index fa6832a..2b04b8c 100644
--- a/src/Compress.cpp
+++ b/src/Compress.cpp
@@ -484,6 +484,11 @@ PyObject * DecompressString(PyObject * self, PyObject * args)
     default:
         break;
     }
+    if (dest_size > (uint64_t)PY_SSIZE_T_MAX)
+    {
+        PyErr_Format(PyExc_ValueError, "input data invalid: content size in frame header is too large");
+        return NULL;
+    }
     result = PyBytes_FromStringAndSize(NULL, dest_size);
 
     if (result != NULL)
-- 
2.43.0


From 0a9d1ba173bb2a156b81c7dcf3d60bb9ca126f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 63/65] fix: AsAnyArray of integers beyond int64 returned -1
 instead of the number

---
 src/Array.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Array.cpp b/src/Array.cpp
index 3cbee39..4d29423 100644
--- a/src/Array.cpp
+++ b/src/Array.cpp
@@ -83,6 +83,7 @@ static PyObject * ConvertInt32(PyObject * object)
 
 //---------------------------------------------------------
 // arg1: the list or item to be converted to an array
+// NOTE: may return NULL on failure to convert
 static PyObject * ConvertInt64(PyObject * object)
 {
     npy_intp size = Py_SIZE(object);
@@ -92,8 +93,13 @@ static PyObject * ConvertInt64(PyObject * object)
     for (int64_t i = 0; i < size; i++)
     {
         int overflow = 0;
-        // if overflow consider uint64?
         pInt64[i] = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(object, i), &overflow);
+        if (overflow)
+        {
+            // Failure due to out of range
+            Py_DecRef((PyObject *)pArray);
+            return NULL;
+        }
     }
     return (PyObject *)pArray;
 }
@@ -348,7 +354,10 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
                             if (result)
                                 return result;
                         }
-                        return ConvertInt64(object);
+                        PyObject * result = ConvertInt64(object);
+                        if (result)
+                            return result;
+                        // out of range for int64, let numpy pick the dtype
                     }
                 }
                 if (PyFloat_Check(firstObject))
-- 
2.43.0


From 2d6b7e87eed5c8323f0233125da349046b62c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 64/65] fix: AsAnyArray and AsFastArray carried on after an
 error, AsFastArray with a null pointer

---
 src/Array.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Array.cpp b/src/Array.cpp
index 4d29423..5e09587 100644
--- a/src/Array.cpp
+++ b/src/Array.cpp
@@ -203,6 +203,7 @@ int ProcessAsArrayKwargs(PyObject * kwargs)
             else
             {
                 PyErr_Format(PyExc_ValueError, "The 'copy' argument must be either True or False.");
+                return 0;
             }
         }
 
@@ -223,6 +224,7 @@ int ProcessAsArrayKwargs(PyObject * kwargs)
             else
             {
                 PyErr_Format(PyExc_ValueError, "The 'order' argument must be either 'F' or 'C'.");
+                return 0;
             }
         }
     }
@@ -290,6 +292,13 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
             }
         }
         flags = ProcessAsArrayKwargs(kwargs);
+
+        // check for error in the kwargs passed, error message already set
+        if (! flags)
+        {
+            Py_XDECREF(descr);
+            return NULL;
+        }
     }
 
     // TODO: handle when user passes a dtype
@@ -419,6 +428,10 @@ PyObject * AsFastArray(PyObject * self, PyObject * args, PyObject * kwargs)
 {
     PyArrayObject * pArray = (PyArrayObject *)AsAnyArray(self, args, kwargs);
 
+    // error message already set
+    if (! pArray)
+        return NULL;
+
     // Convert to FastArray
     return SetFastArrayView(pArray);
 }
-- 
2.43.0


From 23a0729d69850238f63a51aee2f861e3a3bef651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 65/65] fix: AsAnyArray of a scalar lost the unit of a datetime
 and did not own the reference of an object

---
 src/Array.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/Array.cpp b/src/Array.cpp
index 5e09587..cd63367 100644
--- a/src/Array.cpp
+++ b/src/Array.cpp
@@ -408,17 +408,16 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
         return (PyObject *)pArray;
     }
 
-    // Convert rank 0 to dim 1, length 1 array
-    npy_intp size = 1;
-    PyArrayObject * pNewArray = AllocateNumpyArray(1, &size, PyArray_TYPE(pArray), PyArray_ITEMSIZE(pArray));
+    // Convert rank 0 to dim 1, length 1 array, keeping its dtype (the unit of a datetime) and the reference of an object
+    PyObject * pNewArray = PyArray_Ravel(pArray, NPY_CORDER);
 
-    // copy over the data
-    memcpy(PyArray_DATA(pNewArray), PyArray_DATA(pArray), PyArray_ITEMSIZE(pArray));
-
-    // no longer need the numpy array
+    // no longer need the rank 0 array, the new array holds on to it
     Py_DecRef((PyObject *)pArray);
 
-    return (PyObject *)pNewArray;
+    if (! pNewArray)
+        return NULL;
+
+    return SetFastArrayView((PyArrayObject *)pNewArray);
 }
 
 //---------------------------------------------------------
-- 
2.43.0

