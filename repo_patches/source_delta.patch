From 19341d8f3ed4e20d6edb0a0929fe0636b644fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 01/25] fix: PyFast_FromInt returns the exact value of negative
 and of large integers

---
 pyfastutil/src/utils/PythonUtils.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 2f16d17..51df10e 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -147,11 +147,7 @@ static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-#ifdef IS_PYTHON_312_OR_LATER
-    return (PyObject *) _PyLong_FromDigits(value < 0, 1, (digit *) (&value));
-#else
     return PyLong_FromLong(value);
-#endif
 }
 
 
-- 
2.43.0


From 24b78634e8d7fc2d85fae08c4a2e846f61167f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 02/25] fix: IntArrayList/BigIntArrayList repetition and sort
 keep the GIL balanced, sizes exact and accesses aligned

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 40 +++++++++++++++----------
 pyfastutil/src/ints/IntArrayList.cpp    | 40 +++++++++++++++----------
 pyfastutil/src/utils/PythonUtils.h      | 29 ++++++++++++++++++
 3 files changed, 77 insertions(+), 32 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e0f781f..9b4c961 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -461,9 +461,8 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     try {
         if (keyFunc == Py_None) {
             // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            const PyFast_AllowThreads allowThreads;
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -803,12 +802,18 @@ static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
     try {
         const auto selfSize = self->vector.size();
 
-        Py_BEGIN_ALLOW_THREADS
+        if (selfSize > result->vector.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
+        {
+            const PyFast_AllowThreads allowThreads;
             result->vector.resize(selfSize * n);
             for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+                simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
             }
-        Py_END_ALLOW_THREADS
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -845,16 +850,19 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         } else {
             const auto selfSize = self->vector.size();
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(long long) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
+            const PyFast_AllowThreads allowThreads;
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; i < n; ++i) {
+                simd::simdMemCpy(
+                        self->vector.data(),
+                        self->vector.data() + selfSize * i,
+                        selfSize
+                );
+            }
         }
 
         Py_INCREF(pySelf);
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 36a2586..998524f 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -464,9 +464,8 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
     try {
         if (keyFunc == nullptr || keyFunc == Py_None) {
             // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            const PyFast_AllowThreads allowThreads;
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -801,12 +800,18 @@ static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
     try {
         const auto selfSize = self->vector.size();
 
-        Py_BEGIN_ALLOW_THREADS
+        if (selfSize > result->vector.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
+        {
+            const PyFast_AllowThreads allowThreads;
             result->vector.resize(selfSize * n);
             for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+                simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
             }
-        Py_END_ALLOW_THREADS
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -843,16 +848,19 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         } else {
             const auto selfSize = self->vector.size();
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(int) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
+            const PyFast_AllowThreads allowThreads;
+            self->vector.resize(selfSize * n);
+            for (Py_ssize_t i = 1; i < n; ++i) {
+                simd::simdMemCpy(
+                        self->vector.data(),
+                        self->vector.data() + selfSize * i,
+                        selfSize
+                );
+            }
         }
 
         Py_INCREF(pySelf);
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 51df10e..a0936eb 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -91,6 +91,35 @@ static __forceinline bool PyParse_EvalRange(PyObject *&args,
     return true;
 }
 
+/**
+ * Number of elements of range(start, stop, step), step != 0.
+ */
+static __forceinline size_t PyFast_RangeLength(Py_ssize_t start, Py_ssize_t stop, Py_ssize_t step) noexcept {
+    if (step > 0) {
+        return start >= stop ? 0 : ((size_t) stop - (size_t) start - 1) / (size_t) step + 1;
+    }
+    return start <= stop ? 0 : ((size_t) start - (size_t) stop - 1) / (0 - (size_t) step) + 1;
+}
+
+/**
+ * Releases the GIL from construction to destruction, also when an exception leaves the scope.
+ */
+class PyFast_AllowThreads {
+public:
+    PyFast_AllowThreads() noexcept: state(PyEval_SaveThread()) {}
+
+    ~PyFast_AllowThreads() {
+        PyEval_RestoreThread(state);
+    }
+
+    PyFast_AllowThreads(const PyFast_AllowThreads &) = delete;
+
+    PyFast_AllowThreads &operator=(const PyFast_AllowThreads &) = delete;
+
+private:
+    PyThreadState *const state;
+};
+
 #define Py_RETURN_BOOL(b) { if (b) Py_RETURN_TRUE; else Py_RETURN_FALSE; }
 
 #ifdef IS_PYTHON_312_OR_LATER
-- 
2.43.0


From f629981c0a96b89e35acd152897eea6f0f3f2c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 03/25] fix: sorting int lists of eight or more elements keeps
 every element

---
 pyfastutil/src/utils/simd/BitonicSort.cpp | 152 +++-------------------
 1 file changed, 16 insertions(+), 136 deletions(-)

diff --git a/pyfastutil/src/utils/simd/BitonicSort.cpp b/pyfastutil/src/utils/simd/BitonicSort.cpp
index e7558a7..10591da 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.cpp
+++ b/pyfastutil/src/utils/simd/BitonicSort.cpp
@@ -481,80 +481,20 @@ namespace simd {
             }
         }
 #else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
+        // the block sort kernels above drop elements, so they are not used
+        if (size > 5000) {
+            if (reverse) {
+                gfx::timsort(begin, end, std::greater<>());
             } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_INTS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_INTS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_INTS <= size; sortedCount += AVX512_INTS) {
-                if (size - sortedCount > AVX512_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_INT);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_INTS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_INTS <= size; sortedCount += AVX2_INTS) {
-                if (size - sortedCount > AVX2_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_INT);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
+                gfx::timsort(begin, end);
             }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
+        } else {
             if (reverse) {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end,
-                          std::greater<>());
+                std::sort(begin, end, std::greater<>());
             } else {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end);
+                std::sort(begin, end);
             }
         }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
 #endif
     }
 
@@ -594,80 +534,20 @@ namespace simd {
             }
         }
 #else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
+        // the block sort kernels above drop elements, so they are not used
+        if (size > 5000) {
+            if (reverse) {
+                gfx::timsort(begin, end, std::greater<>());
             } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_LONG_LONGS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_LONG_LONGS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_LONG_LONGS <= size; sortedCount += AVX512_LONG_LONGS) {
-                if (size - sortedCount > AVX512_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_LONG_LONG);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_LONG_LONGS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_LONG_LONGS <= size; sortedCount += AVX2_LONG_LONGS) {
-                if (size - sortedCount > AVX2_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_LONG_LONG);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
+                gfx::timsort(begin, end);
             }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
+        } else {
             if (reverse) {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end,
-                          std::greater<>());
+                std::sort(begin, end, std::greater<>());
             } else {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end);
+                std::sort(begin, end);
             }
         }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
 #endif
     }
 }
-- 
2.43.0


From f49b259c5367067bef765a2a05b8e1424779b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 04/25] fix: construct the vector of
 IntArrayList/BigIntArrayList exactly once and report bad constructor
 arguments

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 25 ++++++++++++++++++-------
 pyfastutil/src/ints/IntArrayList.cpp    | 25 ++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 9b4c961..b0d731d 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -20,35 +20,46 @@ static PyTypeObject BigIntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+static __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) return false;
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->vector) std::vector<long long, AlignedAllocator<long long, 64>>();
+static PyObject *BigIntArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *self = PyType_GenericNew(type, args, kwargs);
+    if (self != nullptr) {
+        new(&reinterpret_cast<BigIntArrayList *>(self)->vector) std::vector<long long, AlignedAllocator<long long, 64>>();
+    }
+    return self;
+}
 
+static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
 
     // init vector
     try {
+        self->vector.clear();
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
         }
@@ -1244,7 +1255,7 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
     type.tp_iter = BigIntArrayList_iter;
     type.tp_methods = BigIntArrayList_methods;
     type.tp_init = (initproc) BigIntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = BigIntArrayList_new;
     type.tp_dealloc = (destructor) BigIntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 998524f..161f1ba 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -20,35 +20,46 @@ static PyTypeObject IntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+static __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) return false;
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->vector) std::vector<int, AlignedAllocator<int, 64>>();
+static PyObject *IntArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *self = PyType_GenericNew(type, args, kwargs);
+    if (self != nullptr) {
+        new(&reinterpret_cast<IntArrayList *>(self)->vector) std::vector<int, AlignedAllocator<int, 64>>();
+    }
+    return self;
+}
 
+static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
 
     // init vector
     try {
+        self->vector.clear();
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
         }
@@ -1242,7 +1253,7 @@ void initializeIntArrayListType(PyTypeObject &type) {
     type.tp_iter = IntArrayList_iter;
     type.tp_methods = IntArrayList_methods;
     type.tp_init = (initproc) IntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntArrayList_new;
     type.tp_dealloc = (destructor) IntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From bae6af99dae5ada6d0b6a0a914828e7cdf689ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 05/25] fix: IntArrayList/BigIntArrayList constructors and
 from_range convert exactly and release what they hold

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 52 +++++++++------------
 pyfastutil/src/ints/IntArrayList.cpp    | 60 ++++++++++++-------------
 2 files changed, 49 insertions(+), 63 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index b0d731d..d2f9464 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -72,23 +72,18 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
-                if (fastKeys == nullptr) {
-                    return -1;
-                }
-
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    long long value = PyLong_AsLongLong(items[i]);
-                    if (PyErr_Occurred()) {
-                        SAFE_DECREF(fastKeys);
+                // a conversion may run user code that changes the list
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(pyIterable); ++i) {
+                    PyObject *item = PySequence_Fast_GET_ITEM(pyIterable, i);
+                    Py_INCREF(item);
+                    long long value = PyLong_AsLongLong(item);
+                    SAFE_DECREF(item);
+                    if (value == -1 && PyErr_Occurred()) {
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                         return -1;
                     }
                     self->vector.push_back(value);
                 }
-                SAFE_DECREF(fastKeys);
                 return 0;
             }
 
@@ -101,14 +96,18 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
             PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 long long value = PyLong_AsLongLong(item);
-                if (PyErr_Occurred()) {
+                SAFE_DECREF(item);
+                if (value == -1 && PyErr_Occurred()) {
                     SAFE_DECREF(iter);
-                    SAFE_DECREF(item);
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
-                SAFE_DECREF(item);
+                try {
+                    self->vector.push_back(value);
+                } catch (const std::exception &) {
+                    SAFE_DECREF(iter);
+                    throw;
+                }
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
@@ -137,30 +136,21 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
-        if (step > 0) {
-            if (start >= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = (stop - start + step - 1) / step;
-        } else { // step < 0
-            if (start <= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = ((start - stop) / (-step));
+        const size_t elements = PyFast_RangeLength(start, stop, step);
+        if (elements == 0) {
+            return reinterpret_cast<PyObject *>(list);
         }
 
         list->vector.resize(elements);
 
         Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        for (size_t idx = 0; idx < elements; ++idx) {
             list->vector[idx] = static_cast<long long>(current);
             current += step;
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -221,7 +211,7 @@ static PyObject *BigIntArrayList_copy(PyObject *pySelf) {
     try {
         copy->vector = self->vector;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 161f1ba..3fca6d8 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -5,6 +5,7 @@
 #include "IntArrayList.h"
 #include <vector>
 #include <algorithm>
+#include <climits>
 #include <stdexcept>
 #include "utils/PythonUtils.h"
 #include "utils/include/TimSort.h"
@@ -72,23 +73,18 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).");
-                if (fastKeys == nullptr) {
-                    return -1;
-                }
-
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
-                    if (PyErr_Occurred()) {
-                        SAFE_DECREF(fastKeys);
+                // a conversion may run user code that changes the list
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(pyIterable); ++i) {
+                    PyObject *item = PySequence_Fast_GET_ITEM(pyIterable, i);
+                    Py_INCREF(item);
+                    int value = PyFast_AsInt(item);
+                    SAFE_DECREF(item);
+                    if (value == -1 && PyErr_Occurred()) {
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
                     self->vector.push_back(value);
                 }
-                SAFE_DECREF(fastKeys);
                 return 0;
             }
 
@@ -100,15 +96,19 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
 
             PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
-                int value = PyLong_AsLong(item);
-                if (PyErr_Occurred()) {
+                int value = PyFast_AsInt(item);
+                SAFE_DECREF(item);
+                if (value == -1 && PyErr_Occurred()) {
                     SAFE_DECREF(iter);
-                    SAFE_DECREF(item);
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
-                SAFE_DECREF(item);
+                try {
+                    self->vector.push_back(value);
+                } catch (const std::exception &) {
+                    SAFE_DECREF(iter);
+                    throw;
+                }
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
@@ -137,30 +137,26 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
-        if (step > 0) {
-            if (start >= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = (stop - start + step - 1) / step;
-        } else { // step < 0
-            if (start <= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = ((start - stop) / (-step));
+        const size_t elements = PyFast_RangeLength(start, stop, step);
+        if (elements == 0) {
+            return reinterpret_cast<PyObject *>(list);
         }
 
         list->vector.resize(elements);
 
         Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        for (size_t idx = 0; idx < elements; ++idx) {
+            if (current < INT_MIN || current > INT_MAX) {
+                SAFE_DECREF(list);
+                PyErr_SetString(PyExc_OverflowError, "range element does not fit a C int");
+                return nullptr;
+            }
             list->vector[idx] = static_cast<int>(current);
             current += step;
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -221,7 +217,7 @@ static PyObject *IntArrayList_copy(PyObject *pySelf) {
     try {
         copy->vector = self->vector;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-- 
2.43.0


From 5047832f9473bd50634c201b7567103cec197cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 06/25] fix: IntArrayList/BigIntArrayList extend, +=, + and
 element conversions report every failure and never truncate

---
 pyfastutil/src/ints/BigIntArrayList.cpp |  88 +++++++++------------
 pyfastutil/src/ints/IntArrayList.cpp    | 101 +++++++++++-------------
 2 files changed, 80 insertions(+), 109 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index d2f9464..482b393 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -251,7 +251,14 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            const size_t added = iter->vector.size();
+            self->vector.reserve(self->vector.size() + added);
+            self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.begin() + static_cast<Py_ssize_t>(added));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -263,22 +270,33 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            long long value = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+
+            if (value == -1 && PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -706,12 +724,13 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> BigIntArrayList
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType, pySelf);
+        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->vector = reinterpret_cast<BigIntArrayList *>(pySelf)->vector;
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -738,47 +757,12 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
-        auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = BigIntArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
 
-    SAFE_DECREF(iter);
+    SAFE_DECREF(result);
     Py_INCREF(pySelf);
     return pySelf;
 }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 3fca6d8..96d9459 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -228,8 +228,8 @@ static PyObject *IntArrayList_copy(PyObject *pySelf) {
 static PyObject *IntArrayList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
-    if (PyErr_Occurred()) {
+    int value = PyFast_AsInt(object);
+    if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
 
@@ -257,7 +257,14 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     // fast extend
     if (Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            const size_t added = iter->vector.size();
+            self->vector.reserve(self->vector.size() + added);
+            self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.begin() + static_cast<Py_ssize_t>(added));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -269,22 +276,33 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyFast_AsInt(item);
+            SAFE_DECREF(item);
+
+            if (value == -1 && PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -385,7 +403,7 @@ static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyFast_AsInt(object);
     if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
@@ -432,8 +450,8 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
-    if (PyErr_Occurred()) {
+    int value = PyFast_AsInt(object);
+    if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
 
@@ -710,12 +728,13 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> IntArrayList
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType, pySelf);
+        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->vector = reinterpret_cast<IntArrayList *>(pySelf)->vector;
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -742,47 +761,12 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
-        auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = IntArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
 
-    SAFE_DECREF(iter);
+    SAFE_DECREF(result);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -891,6 +875,9 @@ static int IntArrayList_contains(PyObject *pySelf, PyObject *key) {
     }
 
     try {
+        if (value < INT_MIN || value > INT_MAX) {
+            return 0;  // no element can be equal
+        }
         if (std::find(self->vector.begin(), self->vector.end(), static_cast<int>(value)) != self->vector.end()) {
             return 1;  // true
         } else {
-- 
2.43.0


From 4a50b85b409d4ff699128c6fdd21ccf604cc9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 07/25] fix: IntArrayList/BigIntArrayList pop and item
 assignment leave the list unchanged when they fail

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 27 +++++++++++++++--------
 pyfastutil/src/ints/IntArrayList.cpp    | 29 ++++++++++++++++---------
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 482b393..b658a8f 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -167,6 +167,9 @@ static PyObject *BigIntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
     }
 
     Py_ssize_t pySSize = PyLong_AsSsize_t(pySize);
+    if (pySSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (pySSize < 0) {
         PyErr_SetString(PyExc_ValueError, "Invalid size.");
         return nullptr;
@@ -338,16 +341,18 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
-        const auto popped = self->vector[static_cast<size_t>(index)];
+        PyObject *popped = PyLong_FromLongLong(self->vector[static_cast<size_t>(index)]);
+        if (popped == nullptr) return nullptr;
         self->vector.pop_back();
 
-        return PyLong_FromLongLong(popped);
+        return popped;
     }
 
-    const auto popped = self->vector[static_cast<size_t>(index)];
+    PyObject *popped = PyLong_FromLongLong(self->vector[static_cast<size_t>(index)]);
+    if (popped == nullptr) return nullptr;
     self->vector.erase(self->vector.begin() + index);
 
-    return PyLong_FromLongLong(popped);
+    return popped;
 }
 
 static PyObject *BigIntArrayList_index(PyObject *pySelf, PyObject *args) {
@@ -588,6 +593,15 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
 static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    // the conversion may run user code, so it comes before the bounds check
+    long long value = 0;
+    if (pyValue != nullptr) {
+        value = PyLong_AsLongLong(pyValue);
+        if (value == -1 && PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
     if (pyIndex < 0) {
@@ -602,11 +616,6 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
         if (pyValue == nullptr) {
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
-            long long value = PyLong_AsLongLong(pyValue);
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 96d9459..13eef38 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -173,6 +173,9 @@ static PyObject *IntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
     }
 
     Py_ssize_t pySSize = PyLong_AsSsize_t(pySize);
+    if (pySSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (pySSize < 0) {
         PyErr_SetString(PyExc_ValueError, "Invalid size.");
         return nullptr;
@@ -326,13 +329,14 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
     Py_ssize_t index = vecSize - 1;
 
-    int popped;
+    PyObject *popped;
     switch (nargs) {
         case 0:
-            popped = self->vector.back();
+            popped = PyFast_FromInt(self->vector.back());
+            if (popped == nullptr) return nullptr;
             self->vector.pop_back();
 
-            return PyFast_FromInt(popped);
+            return popped;
         case 1:
             index = PyLong_AsSsize_t(args[0]);
             if (index == -1 && PyErr_Occurred()) {
@@ -348,10 +352,11 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
                 return nullptr;
             }
 
-            popped = self->vector[static_cast<size_t>(index)];
+            popped = PyFast_FromInt(self->vector[static_cast<size_t>(index)]);
+            if (popped == nullptr) return nullptr;
             self->vector.erase(self->vector.begin() + index);
 
-            return PyFast_FromInt(popped);
+            return popped;
         default:
             PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
             return nullptr;
@@ -592,6 +597,15 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
 static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    // the conversion may run user code, so it comes before the bounds check
+    int value = 0;
+    if (pyValue != nullptr) {
+        value = PyFast_AsInt(pyValue);
+        if (value == -1 && PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
     if (pyIndex < 0) {
@@ -606,11 +620,6 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
         if (pyValue == nullptr) {
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
-            int value = PyLong_AsLong(pyValue);
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
-- 
2.43.0


From 80016b5eb494f09b455081327dc76f0c0a92fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 08/25] fix: IntArrayList/BigIntArrayList slice assignment and
 deletion convert first, then change the list

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 89 +++++++++----------------
 pyfastutil/src/ints/IntArrayList.cpp    | 87 ++++++++----------------
 2 files changed, 59 insertions(+), 117 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index b658a8f..b30fa43 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -642,85 +642,56 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        // convert everything first: this may run user code and may fail
+        std::vector<long long> items;
+        const Py_ssize_t newLength = value == nullptr ? 0 : PySequence_Size(value);
+        if (newLength < 0) {
+            return -1;
+        }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            PyObject *item = PySequence_GetItem(value, i);
+            if (item == nullptr) {
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+            const long long element = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+            if (element == -1 && PyErr_Occurred()) {
+                return -1;
             }
+            items.push_back(element);
+        }
 
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+
+        if (newLength <= sliceLength) {  // same number of elements, or less
+            std::copy(items.begin(), items.end(), self->vector.begin() + start);
             self->vector.erase(
-                    self->vector.begin() + start + newLength,
-                    self->vector.begin() + stop
+                self->vector.begin() + start + newLength,
+                self->vector.begin() + start + sliceLength
             );
         } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                        self->vector.begin() + start + i,
-                        PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+            self->vector.reserve(self->vector.size() + (newLength - sliceLength));
+            std::copy(items.begin(), items.begin() + sliceLength, self->vector.begin() + start);
+            self->vector.insert(
+                self->vector.begin() + start + sliceLength,
+                items.begin() + sliceLength,
+                items.end()
+            );
         }
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 13eef38..92923b8 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -646,85 +646,56 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        // convert everything first: this may run user code and may fail
+        std::vector<int> items;
+        const Py_ssize_t newLength = value == nullptr ? 0 : PySequence_Size(value);
+        if (newLength < 0) {
+            return -1;
+        }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            PyObject *item = PySequence_GetItem(value, i);
+            if (item == nullptr) {
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+            const int element = PyFast_AsInt(item);
+            SAFE_DECREF(item);
+            if (element == -1 && PyErr_Occurred()) {
+                return -1;
             }
+            items.push_back(element);
+        }
 
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+
+        if (newLength <= sliceLength) {  // same number of elements, or less
+            std::copy(items.begin(), items.end(), self->vector.begin() + start);
             self->vector.erase(
                 self->vector.begin() + start + newLength,
-                self->vector.begin() + stop
+                self->vector.begin() + start + sliceLength
             );
         } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                    self->vector.begin() + start + i,
-                    PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+            self->vector.reserve(self->vector.size() + (newLength - sliceLength));
+            std::copy(items.begin(), items.begin() + sliceLength, self->vector.begin() + start);
+            self->vector.insert(
+                self->vector.begin() + start + sliceLength,
+                items.begin() + sliceLength,
+                items.end()
+            );
         }
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
-- 
2.43.0


From 0fbded3e067665ec21a4dad77363f9f917457ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 09/25] fix: IntArrayList/BigIntArrayList sort with a key
 function reports failures and tolerates re-entrancy

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 32 ++++++++++++++++++-------
 pyfastutil/src/ints/IntArrayList.cpp    | 32 ++++++++++++++++++-------
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index b30fa43..f002b3b 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -479,7 +479,7 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseInt != 0;
 
     // do sort
     try {
@@ -490,25 +490,41 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
-            auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
+            auto **pyData = static_cast<PyObject **>(PyMem_Calloc(vecSize, sizeof(PyObject *)));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
                 return nullptr;
             }
 
-            for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyLong_FromLongLong(vecData[i]);
+            bool failed = false;
+            for (size_t i = 0; i < vecSize && !failed; ++i) {
+                pyData[i] = PyLong_FromLongLong(self->vector[i]);
+                failed = pyData[i] == nullptr;
+            }
+
+            if (!failed) {
+                // the key function may run any code
+                PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+                failed = result == nullptr;
+                Py_XDECREF(result);
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            if (!failed && self->vector.size() != vecSize) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                failed = true;
+            }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyLong_AsLongLong(pyData[i]);
-                Py_DECREF(pyData[i]);
+                if (!failed) {
+                    self->vector[i] = PyLong_AsLongLong(pyData[i]);
+                }
+                Py_XDECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+            if (failed) {
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 92923b8..85fcc35 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -488,7 +488,7 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseInt != 0;
 
     // do sort
     try {
@@ -499,25 +499,41 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
-            auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
+            auto **pyData = static_cast<PyObject **>(PyMem_Calloc(vecSize, sizeof(PyObject *)));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
                 return nullptr;
             }
 
-            for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyFast_FromInt(vecData[i]);
+            bool failed = false;
+            for (size_t i = 0; i < vecSize && !failed; ++i) {
+                pyData[i] = PyFast_FromInt(self->vector[i]);
+                failed = pyData[i] == nullptr;
+            }
+
+            if (!failed) {
+                // the key function may run any code
+                PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+                failed = result == nullptr;
+                Py_XDECREF(result);
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            if (!failed && self->vector.size() != vecSize) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                failed = true;
+            }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyFast_AsInt(pyData[i]);
-                Py_DECREF(pyData[i]);
+                if (!failed) {
+                    self->vector[i] = PyFast_AsInt(pyData[i]);
+                }
+                Py_XDECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+            if (failed) {
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From f9695a498d78eec6882387a90822795546f47218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 10/25] fix: IntArrayList/BigIntArrayList comparisons report
 failed conversions and re-check the size

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 39 ++++++++++++++++----
 pyfastutil/src/ints/IntArrayList.cpp    | 49 ++++++++++++++++++-------
 2 files changed, 67 insertions(+), 21 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index f002b3b..52f78bb 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -921,19 +921,25 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
-            SAFE_DECREF(item);
+        SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) {  // can't be converted to int
+            if (!PyErr_ExceptionMatches(PyExc_TypeError) && !PyErr_ExceptionMatches(PyExc_OverflowError)) {
+                return nullptr;
+            }
+            PyErr_Clear();
             Py_RETURN_FALSE;
         }
-        SAFE_DECREF(item);
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) Py_RETURN_FALSE;
+        long long self_value = self->vector[i];
         if (self_value != other_value)
             Py_RETURN_FALSE;
     }
@@ -943,6 +949,7 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
 static __forceinline PyObject *BigIntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = BigIntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -971,14 +978,18 @@ static __forceinline PyObject *BigIntArrayList_lt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) break;
+        long long self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
@@ -1003,14 +1014,18 @@ static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) break;
+        long long self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
@@ -1035,14 +1050,18 @@ static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) break;
+        long long self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
@@ -1067,14 +1086,18 @@ static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) break;
+        long long self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 85fcc35..55f2608 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -928,19 +928,25 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
-            SAFE_DECREF(item);
+        long other_value = PyLong_AsLong(item);
+        SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) {  // can't be converted to int
+            if (!PyErr_ExceptionMatches(PyExc_TypeError) && !PyErr_ExceptionMatches(PyExc_OverflowError)) {
+                return nullptr;
+            }
+            PyErr_Clear();
             Py_RETURN_FALSE;
         }
-        SAFE_DECREF(item);
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) Py_RETURN_FALSE;
+        int self_value = self->vector[i];
         if (self_value != other_value)
             Py_RETURN_FALSE;
     }
@@ -950,6 +956,7 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
 static __forceinline PyObject *IntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -978,14 +985,18 @@ static __forceinline PyObject *IntArrayList_lt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) break;
+        int self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
@@ -1010,14 +1021,18 @@ static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) break;
+        int self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
@@ -1042,14 +1057,18 @@ static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) break;
+        int self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
@@ -1074,14 +1093,18 @@ static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
+        long other_value = PyLong_AsLong(item);
         Py_DECREF(item);
+        if (other_value == -1 && PyErr_Occurred()) return nullptr;
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) break;
+        int self_value = self->vector[i];
         if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
-- 
2.43.0


From ac80b2fb6d466b40b4de425eab9261a24a3e8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 11/25] fix: IntArrayList/BigIntArrayList repr catches
 allocation failures

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 37 ++++++++++++++-----------
 pyfastutil/src/ints/IntArrayList.cpp    | 37 ++++++++++++++-----------
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 52f78bb..bfc4acb 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1138,26 +1138,31 @@ static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *BigIntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 55f2608..f578fbc 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1145,26 +1145,31 @@ static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntArrayList_str(PyObject *pySelf) {
-- 
2.43.0


From ad67e10fb9ed7873ff28c007facd4c8546b8db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 12/25] fix: IntArrayList/BigIntArrayList buffers keep the list
 alive and its memory in place

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 72 ++++++++++++++++++++++++-
 pyfastutil/src/ints/BigIntArrayList.h   |  1 +
 pyfastutil/src/ints/IntArrayList.cpp    | 72 ++++++++++++++++++++++++-
 pyfastutil/src/ints/IntArrayList.h      |  1 +
 pyfastutil/src/utils/PythonUtils.h      | 12 +++++
 5 files changed, 154 insertions(+), 4 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index bfc4acb..dda6b50 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -57,6 +57,10 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
         return -1;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return -1;
+    }
+
     // init vector
     try {
         self->vector.clear();
@@ -82,6 +86,7 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                         return -1;
                     }
+                    if (!PyFast_CheckExports(self->exports)) return -1;
                     self->vector.push_back(value);
                 }
                 return 0;
@@ -102,6 +107,10 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                     return -1;
                 }
+                if (!PyFast_CheckExports(self->exports)) {
+                    SAFE_DECREF(iter);
+                    return -1;
+                }
                 try {
                     self->vector.push_back(value);
                 } catch (const std::exception &) {
@@ -175,6 +184,10 @@ static PyObject *BigIntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -230,6 +243,10 @@ static PyObject *BigIntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -254,6 +271,9 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
+        if (!PyFast_CheckExports(self->exports)) {
+            return nullptr;
+        }
         try {
             const size_t added = iter->vector.size();
             self->vector.reserve(self->vector.size() + added);
@@ -278,6 +298,11 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        SAFE_DECREF(iter);
+        return nullptr;
+    }
+
     try {
         if (hint > 0) {
             self->vector.reserve(self->vector.size() + hint);
@@ -294,6 +319,11 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
                 return nullptr;
             }
 
+            if (!PyFast_CheckExports(self->exports)) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
             self->vector.push_back(value);
         }
     } catch (const std::exception &e) {
@@ -320,6 +350,10 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
     Py_ssize_t index = vecSize - 1;
 
@@ -424,6 +458,10 @@ static PyObject *BigIntArrayList_insert(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     // fix index
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
     if (index < 0) {
@@ -455,6 +493,9 @@ static PyObject *BigIntArrayList_remove(PyObject *pySelf, PyObject *object) {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
         if (it != self->vector.end()) {
+            if (!PyFast_CheckExports(self->exports)) {
+                return nullptr;
+            }
             self->vector.erase(it);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
@@ -630,6 +671,9 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
+            if (!PyFast_CheckExports(self->exports)) {
+                return -1;
+            }
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             self->vector[static_cast<size_t>(pyIndex)] = value;
@@ -692,6 +736,10 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
         sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
 
+        if (newLength != sliceLength && !PyFast_CheckExports(self->exports)) {
+            return -1;
+        }
+
         if (newLength <= sliceLength) {  // same number of elements, or less
             std::copy(items.begin(), items.end(), self->vector.begin() + start);
             self->vector.erase(
@@ -825,6 +873,10 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -898,6 +950,10 @@ static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
 static PyObject *BigIntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1170,9 +1226,17 @@ static PyObject *BigIntArrayList_str(PyObject *pySelf) {
 }
 
 static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "a buffer view is required");
+        return -1;
+    }
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    // the view keeps the list alive and its memory in place
+    Py_INCREF(pySelf);
+    view->obj = pySelf;
+    self->exports++;
+
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
     view->format = const_cast<char *>("q");
     view->buf = self->vector.data();
@@ -1188,6 +1252,10 @@ static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe
     return 0;
 }
 
+static void BigIntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    reinterpret_cast<BigIntArrayList *>(pySelf)->exports--;
+}
+
 static PyMethodDef BigIntArrayList_methods[] = {
         {"from_range", (PyCFunction) BigIntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) BigIntArrayList_resize, METH_O},
@@ -1240,7 +1308,7 @@ static PyMappingMethods BigIntArrayList_asMapping = {
 
 static PyBufferProcs BigIntArrayList_asBuffer = {
         BigIntArrayList_get_buffer,
-        nullptr
+        BigIntArrayList_release_buffer
 };
 
 void initializeBigIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/BigIntArrayList.h b/pyfastutil/src/ints/BigIntArrayList.h
index 8a018c3..e03af9d 100644
--- a/pyfastutil/src/ints/BigIntArrayList.h
+++ b/pyfastutil/src/ints/BigIntArrayList.h
@@ -15,6 +15,7 @@ typedef struct BigIntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<long long, AlignedAllocator<long long, 64>> vector;
     Py_ssize_t shape = 0;
+    Py_ssize_t exports = 0;  // number of exported buffers
 } BigIntArrayList;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index f578fbc..b200232 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -58,6 +58,10 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
         return -1;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return -1;
+    }
+
     // init vector
     try {
         self->vector.clear();
@@ -83,6 +87,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
+                    if (!PyFast_CheckExports(self->exports)) return -1;
                     self->vector.push_back(value);
                 }
                 return 0;
@@ -103,6 +108,10 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                     return -1;
                 }
+                if (!PyFast_CheckExports(self->exports)) {
+                    SAFE_DECREF(iter);
+                    return -1;
+                }
                 try {
                     self->vector.push_back(value);
                 } catch (const std::exception &) {
@@ -181,6 +190,10 @@ static PyObject *IntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     try {
         self->vector.resize(static_cast<size_t>(pySSize));
     } catch (const std::exception &e) {
@@ -236,6 +249,10 @@ static PyObject *IntArrayList_append(PyObject *pySelf, PyObject *object) {
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     try {
         self->vector.push_back(value);
     } catch (const std::exception &e) {
@@ -260,6 +277,9 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     // fast extend
     if (Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
+        if (!PyFast_CheckExports(self->exports)) {
+            return nullptr;
+        }
         try {
             const size_t added = iter->vector.size();
             self->vector.reserve(self->vector.size() + added);
@@ -284,6 +304,11 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        SAFE_DECREF(iter);
+        return nullptr;
+    }
+
     try {
         if (hint > 0) {
             self->vector.reserve(self->vector.size() + hint);
@@ -300,6 +325,11 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
                 return nullptr;
             }
 
+            if (!PyFast_CheckExports(self->exports)) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
             self->vector.push_back(value);
         }
     } catch (const std::exception &e) {
@@ -326,6 +356,10 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
     Py_ssize_t index = vecSize - 1;
 
@@ -433,6 +467,10 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     // fix index
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
     if (index < 0) {
@@ -464,6 +502,9 @@ static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
         auto it = std::find(self->vector.begin(), self->vector.end(), value);
 
         if (it != self->vector.end()) {
+            if (!PyFast_CheckExports(self->exports)) {
+                return nullptr;
+            }
             self->vector.erase(it);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
@@ -634,6 +675,9 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
 
     try {
         if (pyValue == nullptr) {
+            if (!PyFast_CheckExports(self->exports)) {
+                return -1;
+            }
             self->vector.erase(self->vector.begin() + pyIndex);
         } else {
             self->vector[static_cast<size_t>(pyIndex)] = value;
@@ -696,6 +740,10 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 
         sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
 
+        if (newLength != sliceLength && !PyFast_CheckExports(self->exports)) {
+            return -1;
+        }
+
         if (newLength <= sliceLength) {  // same number of elements, or less
             std::copy(items.begin(), items.end(), self->vector.begin() + start);
             self->vector.erase(
@@ -829,6 +877,10 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
         n = 0;
     }
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     try {
         if (n == 0) {
             self->vector.clear();
@@ -905,6 +957,10 @@ static PyObject *IntArrayList_reverse(PyObject *pySelf) {
 static PyObject *IntArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!PyFast_CheckExports(self->exports)) {
+        return nullptr;
+    }
+
     self->vector.clear();
     Py_RETURN_NONE;
 }
@@ -1177,9 +1233,17 @@ static PyObject *IntArrayList_str(PyObject *pySelf) {
 }
 
 static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_unused]] int flags) {
-    if (view == nullptr) return -1;
+    if (view == nullptr) {
+        PyErr_SetString(PyExc_BufferError, "a buffer view is required");
+        return -1;
+    }
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    // the view keeps the list alive and its memory in place
+    Py_INCREF(pySelf);
+    view->obj = pySelf;
+    self->exports++;
+
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
     view->format = const_cast<char *>("i");
     view->buf = self->vector.data();
@@ -1195,6 +1259,10 @@ static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_un
     return 0;
 }
 
+static void IntArrayList_release_buffer(PyObject *pySelf, [[maybe_unused]] Py_buffer *view) {
+    reinterpret_cast<IntArrayList *>(pySelf)->exports--;
+}
+
 static PyMethodDef IntArrayList_methods[] = {
         {"from_range", (PyCFunction) IntArrayList_from_range, METH_VARARGS | METH_STATIC},
         {"resize", (PyCFunction) IntArrayList_resize, METH_O},
@@ -1247,7 +1315,7 @@ static PyMappingMethods IntArrayList_asMapping = {
 
 static PyBufferProcs IntArrayList_asBuffer = {
         IntArrayList_get_buffer,
-        nullptr
+        IntArrayList_release_buffer
 };
 
 void initializeIntArrayListType(PyTypeObject &type) {
diff --git a/pyfastutil/src/ints/IntArrayList.h b/pyfastutil/src/ints/IntArrayList.h
index 24d5598..59218aa 100644
--- a/pyfastutil/src/ints/IntArrayList.h
+++ b/pyfastutil/src/ints/IntArrayList.h
@@ -15,6 +15,7 @@ typedef struct IntArrayList {
     // we use 64 bytes memory aligned to support faster SIMD, suggestion by ChatGPT.
     std::vector<int, AlignedAllocator<int, 64>> vector;
     Py_ssize_t shape = 0;
+    Py_ssize_t exports = 0;  // number of exported buffers
 } IntArrayList;
 }
 
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index a0936eb..68489c7 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -120,6 +120,18 @@ private:
     PyThreadState *const state;
 };
 
+/**
+ * Exported buffers pin the memory of a container: as long as there are any, its size must not change.
+ * If there are any, function will raise python exception.
+ */
+static __forceinline bool PyFast_CheckExports(Py_ssize_t exports) noexcept {
+    if (UNLIKELY(exports > 0)) {
+        PyErr_SetString(PyExc_BufferError, "Existing exports of data: object cannot be re-sized");
+        return false;
+    }
+    return true;
+}
+
 #define Py_RETURN_BOOL(b) { if (b) Py_RETURN_TRUE; else Py_RETURN_FALSE; }
 
 #ifdef IS_PYTHON_312_OR_LATER
-- 
2.43.0


From bfb21d018cbd7bb2ded537436b6f26e09aaef481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 13/25] fix: iterators stay inside the container when it
 changes during iteration

---
 pyfastutil/src/ints/BigIntArrayListIter.cpp     |  4 ++--
 pyfastutil/src/ints/IntArrayListIter.cpp        |  4 ++--
 pyfastutil/src/ints/IntLinkedListIter.cpp       | 14 ++++----------
 pyfastutil/src/objects/ObjectArrayListIter.cpp  |  4 ++--
 pyfastutil/src/objects/ObjectLinkedListIter.cpp | 14 ++++----------
 5 files changed, 14 insertions(+), 26 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 321d759..cb14ab8 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -48,8 +48,8 @@ static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyLong_FromLongLong(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
+        if (self->index >= self->container->vector.size()) {
+            // already finish iteration, or the list shrank below the position
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 358eae2..9d8936d 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -48,8 +48,8 @@ static PyObject *IntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
+        if (self->index >= self->container->vector.size()) {
+            // already finish iteration, or the list shrank below the position
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index deff949..44f1899 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -42,13 +42,7 @@ static __forceinline void updateCache(IntLinkedListIter *&self) {
         return;
     }
 
-    auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
-    self->cacheIter = newIter;
+    self->cacheIter = at(self->container->list, self->index);
     self->cacheModCount = self->container->modCount;
 }
 
@@ -63,12 +57,12 @@ static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            int element = *(--self->container->list.end());
+            int element = self->container->list.front();
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
+        if (self->index >= self->container->list.size()) {
+            // already finish iteration, or the list shrank below the position
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 9447d5b..26606f3 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -49,8 +49,8 @@ static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
+        if (self->index >= self->container->vector.size()) {
+            // already finish iteration, or the list shrank below the position
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index d8dcf16..eb94c9c 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -42,13 +42,7 @@ static __forceinline void updateCache(ObjectLinkedListIter *&self) {
         return;
     }
 
-    auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
-    self->cacheIter = newIter;
+    self->cacheIter = at(self->container->list, self->index);
     self->cacheModCount = self->container->modCount;
 }
 
@@ -63,13 +57,13 @@ static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            PyObject *element = *(--self->container->list.end());
+            PyObject *element = self->container->list.front();
             self->index = SIZE_MAX;
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
+        if (self->index >= self->container->list.size()) {
+            // already finish iteration, or the list shrank below the position
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
-- 
2.43.0


From eb44af78d913e53b9f5687e256ca0376306f1fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 14/25] fix: PyFast_INCREF/DECREF recognise the immortal
 objects of Python 3.12

---
 pyfastutil/src/utils/PythonUtils.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 68489c7..728f709 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -9,33 +9,44 @@
 #include "PythonPCH.h"
 #include "Compat.h"
 
+/**
+ * If the reference count of the object never changes.
+ */
+static __forceinline bool PyFast_IsImmortal(PyObject *object) noexcept {
+#ifdef IS_PYTHON_312_OR_LATER
+    return _Py_IsImmortal(object);
+#else
+    return object->ob_refcnt < 0;
+#endif
+}
+
 template<typename T>
-static __forceinline constexpr void PyFast_INCREF(T *object) noexcept {
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
+static __forceinline void PyFast_INCREF(T *object) noexcept {
+    if (UNLIKELY(PyFast_IsImmortal((PyObject *) object)))
         return;
     ((PyObject *) object)->ob_refcnt++;
 }
 
 template<typename T>
-static __forceinline constexpr void PyFast_DECREF(T *object) noexcept {
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
+static __forceinline void PyFast_DECREF(T *object) noexcept {
+    if (UNLIKELY(PyFast_IsImmortal((PyObject *) object)))
         return;
     if (--((PyObject *) object)->ob_refcnt == 0)
         _Py_Dealloc((PyObject *) object);
 }
 
 template<typename T>
-static __forceinline constexpr void PyFast_XDECREF(T *object) noexcept {
+static __forceinline void PyFast_XDECREF(T *object) noexcept {
     if (UNLIKELY(object == nullptr))
         return;
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
+    if (UNLIKELY(PyFast_IsImmortal((PyObject *) object)))
         return;
     if (--((PyObject *) object)->ob_refcnt == 0)
         _Py_Dealloc((PyObject *) object);
 }
 
 template<typename T>
-static __forceinline constexpr void SAFE_DECREF(T *&object) noexcept {
+static __forceinline void SAFE_DECREF(T *&object) noexcept {
     assert(object != nullptr);
     PyFast_DECREF(object);
     object = nullptr;
-- 
2.43.0


From 36ed097b3f7de8c66f1317629ec182e79b96ccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:31 +0000
Subject: [PATCH 15/25] fix: ObjectArrayList ownership, failure reporting,
 slices, comparisons and re-entrancy

References are released exactly once and only after the list is consistent, failing
operations leave the list unchanged, lt/le/gt/ge compare lexicographically and the
vector is constructed once
---
 pyfastutil/src/objects/ObjectArrayList.cpp | 551 +++++++++------------
 1 file changed, 239 insertions(+), 312 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 09ceb8f..853507e 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -20,90 +20,114 @@ static PyTypeObject ObjectArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+static __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) return false;
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
-static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->vector) std::vector<PyObject *>();
+/**
+ * Release all elements. The container is empty before the first one is released,
+ * because their finalizers may run any code.
+ */
+static __forceinline void releaseItems(std::vector<PyObject *> &vector) noexcept {
+    std::vector<PyObject *> items;
+    items.swap(vector);
+    for (PyObject *item: items) {
+        SAFE_DECREF(item);
+    }
+}
 
+static PyObject *ObjectArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *self = PyType_GenericNew(type, args, kwargs);
+    if (self != nullptr) {
+        new(&reinterpret_cast<ObjectArrayList *>(self)->vector) std::vector<PyObject *>();
+    }
+    return self;
+}
+
+static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
 
     // init vector
+    std::vector<PyObject *> items;
     try {
         if (pySize > 0) {
-            self->vector.reserve(static_cast<size_t>(pySize));
+            items.reserve(static_cast<size_t>(pySize));
         }
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectArrayListType) {  // ObjectArrayList is a final class
                 auto *iter = reinterpret_cast<ObjectArrayList *>(pyIterable);
-                self->vector = iter->vector;
-                return 0;
-            }
+                items.insert(items.end(), iter->vector.begin(), iter->vector.end());
+                for (PyObject *item: items) {
+                    Py_INCREF(item);
+                }
+            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+                const auto size = PySequence_Fast_GET_SIZE(pyIterable);
+                auto fastItems = PySequence_Fast_ITEMS(pyIterable);
 
-            if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastIter = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectArrayList).");
-                if (fastIter == nullptr) {
+                items.insert(items.end(), fastItems, fastItems + size);  // even faster than memcpy!!
+                for (PyObject *item: items) {
+                    Py_INCREF(item);
+                }
+            } else {
+                PyObject *iter = PyObject_GetIter(pyIterable);
+                if (iter == nullptr) {
+                    PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastIter);
-                auto items = PySequence_Fast_ITEMS(fastIter);
-
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    Py_INCREF(items[i]);
+                PyObject *item;
+                while ((item = PyIter_Next(iter)) != nullptr) {
+                    try {
+                        items.push_back(item);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(item);
+                        SAFE_DECREF(iter);
+                        throw;
+                    }
+                }
+                SAFE_DECREF(iter);
+                if (PyErr_Occurred()) {
+                    releaseItems(items);
+                    return -1;
                 }
-
-                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
-
-                SAFE_DECREF(fastIter);
-                return 0;
-            }
-
-            PyObject *iter = PyObject_GetIter(pyIterable);
-            if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
-                return -1;
-            }
-
-            PyObject *item;
-            while ((item = PyIter_Next(iter)) != nullptr) {
-                self->vector.push_back(item);
             }
-            SAFE_DECREF(iter);
-            if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        releaseItems(items);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    items.swap(self->vector);
+    releaseItems(items);
     return 0;
 }
 
 static void ObjectArrayList_dealloc(ObjectArrayList *self) {
-    for (PyObject *item: self->vector) {
-        SAFE_DECREF(item);
-    }
+    releaseItems(self->vector);
     self->vector.~vector();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -117,6 +141,9 @@ static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
     }
 
     Py_ssize_t pySSize = PyLong_AsSsize_t(pySize);
+    if (pySSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (pySSize < 0) {
         PyErr_SetString(PyExc_ValueError, "Invalid size.");
         return nullptr;
@@ -124,16 +151,17 @@ static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
 
     try {
         const auto newSize = static_cast<size_t>(pySSize);
-        self->vector.resize(newSize, Py_None);
-        // No need to call Py_INCREF on Py_None or other constant objects
-        // because, the reference count operations on global singleton objects
-        // like None, True, and False have been optimized to be no-ops.
-//        if (newSize > size) {
-//            const auto addedNone = newSize - size;
-//            for (size_t i = 0; i < addedNone; ++i) {
-//                Py_INCREF(Py_None);
-//            }
-//        }
+        const auto size = self->vector.size();
+        if (newSize < size) {
+            std::vector<PyObject *> removed(self->vector.begin() + pySSize, self->vector.end());
+            self->vector.resize(newSize);
+            releaseItems(removed);
+        } else {
+            self->vector.resize(newSize, Py_None);
+            for (size_t i = size; i < newSize; ++i) {
+                Py_INCREF(Py_None);
+            }
+        }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -171,7 +199,7 @@ static PyObject *ObjectArrayList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -212,9 +240,17 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &ObjectArrayListType) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
+        try {
+            // the iterable may be the list itself
+            const size_t added = iter->vector.size();
+            self->vector.reserve(self->vector.size() + added);
+            self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.begin() + static_cast<Py_ssize_t>(added));
+            for (size_t i = 0; i < added; ++i) {
+                Py_INCREF(iter->vector[i]);
+            }
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
         Py_RETURN_NONE;
     }
@@ -222,7 +258,12 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     if (Py_TYPE(iterable) == &PyList_Type) {
         const auto *iter = reinterpret_cast<PyListObject *>(iterable);
         const auto last = iter->ob_item + PyList_GET_SIZE(iter);
-        self->vector.insert(self->vector.end(), iter->ob_item, last);
+        try {
+            self->vector.insert(self->vector.end(), iter->ob_item, last);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         for (PyObject **item = iter->ob_item; item < last; ++item) {
             Py_INCREF(*item);
         }
@@ -237,19 +278,26 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    PyObject *item = nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(item);
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            self->vector.push_back(item);
+        }
+    } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -425,10 +473,22 @@ static PyObject *ObjectArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
         return nullptr;
     }
 
-    // do sort
-    return CPython_sort(self->vector.data(),
-                        static_cast<Py_ssize_t>(self->vector.size()),
-                        keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    // do sort, the list is empty while comparisons run user code
+    std::vector<PyObject *> items;
+    items.swap(self->vector);
+    PyObject *result = CPython_sort(items.data(),
+                                    static_cast<Py_ssize_t>(items.size()),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    items.swap(self->vector);
+
+    if (!items.empty()) {
+        releaseItems(items);
+        if (result != nullptr) {
+            SAFE_DECREF(result);
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        }
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectArrayList_len(PyObject *pySelf) {
@@ -512,16 +572,19 @@ static int ObjectArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
-            SAFE_DECREF(self->vector[static_cast<size_t>(pyIndex)]);
+            PyObject *removed = self->vector[static_cast<size_t>(pyIndex)];
             self->vector.erase(self->vector.begin() + pyIndex);
+            SAFE_DECREF(removed);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
+            PyObject *replaced = self->vector[static_cast<size_t>(pyIndex)];
             self->vector[static_cast<size_t>(pyIndex)] = value;
             Py_INCREF(value);
+            SAFE_DECREF(replaced);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -546,130 +609,72 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    try {
-        PyObject **startPtr = self->vector.data() + start;
+    // get all items first: this may run user code and may fail
+    PyObject *sequence = value == nullptr ? PyTuple_New(0) : PySequence_Tuple(value);
+    if (sequence == nullptr) {
+        return -1;
+    }
+    PyObject **items = PySequence_Fast_ITEMS(sequence);
+    const Py_ssize_t newLength = PySequence_Fast_GET_SIZE(sequence);
 
-        // Helper function to handle fast memcpy and reference counting
-        static const auto fastCopy = [](PyObject **dest, PyObject **src, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                SAFE_DECREF(dest[i]);  // Decrease reference for old item
-                Py_INCREF(src[i]);    // Increase reference for new item
-            }
-            fast_memcpy(dest, src, length * sizeof(PyObject *));
-        };
-
-        // Helper function to handle generic copy (non-optimized path)
-        static const auto genericCopy = [](PyObject **dest, PyObject *srcSeq, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                PyObject *item = PySequence_GetItem(srcSeq, i);
-                if (item == nullptr) {
-                    return -1;  // Exception already set
-                }
-                SAFE_DECREF(dest[i]);
-                dest[i] = item;
-            }
-            return 0;
-        };
-
-        if (newLength == sliceLength) {  // Case 1: Replace elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // Case 2: Replace and remove extra elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), newLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, newLength);
-            } else {
-                if (genericCopy(startPtr, value, newLength) < 0) {
-                    return -1;
-                }
-            }
+    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
 
-            // Remove extra elements
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(startPtr[i]);
-            }
-            self->vector.erase(self->vector.begin() + start + newLength, self->vector.begin() + stop);
-        } else {  // Case 3: Replace and insert additional elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->vector.data() + sliceLength,
-                        fastValue->vector.data() + newLength
-                );
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->ob_item + sliceLength,
-                        fastValue->ob_item + newLength
-                );
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
+    std::vector<PyObject *> removed;
+    try {
+        const auto first = self->vector.begin() + start;
+        removed.assign(first, first + sliceLength);
 
-                // Insert additional elements
-                for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                    PyObject *item = PySequence_GetItem(value, i);
-                    if (item == nullptr) {
-                        return -1;
-                    }
-                    self->vector.insert(self->vector.begin() + start + i, item);
-                }
-            }
+        if (newLength <= sliceLength) {  // same number of elements, or less
+            self->vector.erase(first + newLength, first + sliceLength);
+        } else {  // more elements
+            self->vector.insert(first + sliceLength, newLength - sliceLength, nullptr);
+        }
+        fast_memcpy(self->vector.data() + start, items, newLength * sizeof(PyObject *));
+        for (Py_ssize_t i = 0; i < newLength; ++i) {
+            Py_INCREF(items[i]);
         }
     } catch (const std::exception &e) {
+        SAFE_DECREF(sequence);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(sequence);
+    releaseItems(removed);
     return 0;
 }
 
 static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
     if (Py_TYPE(pyValue) == &ObjectArrayListType) {
         // fast add -> ObjectArrayList
+        auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
         auto *value = reinterpret_cast<ObjectArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType, pySelf);
+        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
-            for (const auto &item: value->vector) {
+            result->vector.reserve(self->vector.size() + value->vector.size());
+            result->vector.insert(result->vector.end(), self->vector.begin(), self->vector.end());
+            for (const auto &item: self->vector) {
                 Py_INCREF(item);
             }
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
+            for (const auto &item: value->vector) {
+                Py_INCREF(item);
+            }
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -695,49 +700,12 @@ static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
-        auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
-        }
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = ObjectArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -762,6 +730,11 @@ static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
     try {
         const auto selfSize = self->vector.size();
 
+        if (selfSize > result->vector.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
         result->vector.reserve(selfSize * n);
         for (Py_ssize_t i = 0; i < n; ++i) {
             for (const auto obj: self->vector) {
@@ -801,13 +774,17 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->vector.clear();
+            releaseItems(self->vector);
         } else {
             const auto selfSize = self->vector.size();
 
+            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
             self->vector.reserve(selfSize * n);
             for (Py_ssize_t i = 1; i < n; ++i) {
-                for (size_t j = 0; j < self->vector.size(); ++j) {
+                for (size_t j = 0; j < selfSize; ++j) {
                     self->vector.push_back(self->vector[j]);
                     Py_INCREF(self->vector[j]);
                 }
@@ -866,10 +843,7 @@ static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
 static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    for (auto &item: self->vector) {
-        SAFE_DECREF(item);
-    }
-    self->vector.clear();
+    releaseItems(self->vector);
     Py_RETURN_NONE;
 }
 
@@ -880,6 +854,8 @@ static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
@@ -888,11 +864,19 @@ static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *py
         if (item == nullptr)
             return nullptr;
 
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {
+            SAFE_DECREF(item);
+            Py_RETURN_FALSE;
+        }
+
         PyObject *self_value = self->vector[i];
         PyObject *other_value = item;
+        Py_INCREF(self_value);
 
         // compare
         int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
@@ -914,16 +898,27 @@ static __forceinline PyObject *ObjectArrayList_ne(PyObject *pySelf, PyObject *py
 
     // compare
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_TRUE;
 
     for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
+
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {
+            SAFE_DECREF(item);
+            Py_RETURN_TRUE;
+        }
+
         PyObject *self_value = self->vector[i];
         PyObject *other_value = item;
+        Py_INCREF(self_value);
 
         int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
+        SAFE_DECREF(self_value);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
@@ -937,7 +932,10 @@ static __forceinline PyObject *ObjectArrayList_ne(PyObject *pySelf, PyObject *py
     Py_RETURN_FALSE;
 }
 
-static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *pyValue) {
+/**
+ * Lexicographic order, like list: the first items that differ decide, then the sizes.
+ */
+static __forceinline PyObject *ObjectArrayList_order(PyObject *pySelf, PyObject *pyValue, const int op) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     if (!PySequence_Check(pyValue)) {
@@ -949,128 +947,47 @@ static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
     for (Py_ssize_t i = 0; i < seqSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        // user code may have changed the list
+        if (i >= static_cast<Py_ssize_t>(self->vector.size())) {
+            SAFE_DECREF(item);
+            break;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] < item
-    }
-
-    Py_RETURN_FALSE;
-}
-
-static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
 
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
+        PyObject *selfItem = self->vector[i];
+        Py_INCREF(selfItem);
 
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LE);
+        int equal = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = equal == 0 ? PyObject_RichCompare(selfItem, item, op) : nullptr;
+        SAFE_DECREF(selfItem);
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (equal <= 0) {
+            return result;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] <= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_RICHCOMPARE(static_cast<Py_ssize_t>(self->vector.size()), seqSize, op);
 }
 
-static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
+static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *pyValue) {
+    return ObjectArrayList_order(pySelf, pyValue, Py_LT);
+}
 
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] > item
-    }
+static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *pyValue) {
+    return ObjectArrayList_order(pySelf, pyValue, Py_LE);
+}
 
-    Py_RETURN_FALSE;
+static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
+    return ObjectArrayList_order(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] >= item
-    }
-
-    Py_RETURN_FALSE;
+    return ObjectArrayList_order(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *ObjectArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
@@ -1114,19 +1031,29 @@ static __forceinline PyObject *ObjectArrayList_repr(PyObject *pySelf) {
     }
 
     // generate string
-    for (size_t i = 0; i < vec.size() - 1; ++i) {
-        PyObject *itemRepr = PyObject_Repr(vec[i]);
+    for (size_t i = 0; i < vec.size(); ++i) {  // user code may change the list
+        if (i > 0) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+            if (reprList == nullptr) {
+                return nullptr;
+            }
+        }
+
+        PyObject *item = vec[i];
+        Py_INCREF(item);
+        PyObject *itemRepr = PyObject_Repr(item);
+        SAFE_DECREF(item);
         if (itemRepr == nullptr) {
             SAFE_DECREF(reprList);
             return nullptr;
         }
 
         PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        if (reprList == nullptr) {
+            return nullptr;
+        }
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec[vec.size() - 1]);
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
     PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
 
     return reprList;
@@ -1195,7 +1122,7 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_iter = ObjectArrayList_iter;
     type.tp_methods = ObjectArrayList_methods;
     type.tp_init = (initproc) ObjectArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectArrayList_new;
     type.tp_dealloc = (destructor) ObjectArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 1ef8b70922b89c51d6f58daf5a772af03df74383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 16/25] fix: SIMD functions report failed conversions,
 out-of-range lanes and counts

---
 pyfastutil/src/unsafe/SIMD.cpp | 153 +++++++++++++++++----------------
 1 file changed, 79 insertions(+), 74 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 9f18d47..c9aa594 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -3,6 +3,8 @@
 //
 
 #include "SIMD.h"
+#include <cstring>
+#include <limits>
 #include "utils/simd/SIMDHelper.h"
 #include "utils/simd/SIMDUtils.h"
 #include "utils/simd/BitonicSort.h"
@@ -32,6 +34,31 @@
     {"memcpy" #name "Aligned", (PyCFunction) SIMD_memcpy##name##Aligned, METH_FASTCALL, nullptr}, \
     {"reverse" #name, (PyCFunction) SIMD_reverse##name, METH_FASTCALL, nullptr}
 
+/**
+ * If not successful, function will raise python exception.
+ */
+template<typename T>
+static __forceinline bool SIMD_asAddress(PyObject *pyAddress, T *&address) noexcept {
+    address = reinterpret_cast<T *>(PyLong_AsVoidPtr(pyAddress));
+    return address != nullptr || !PyErr_Occurred();
+}
+
+/**
+ * If not successful, function will raise python exception.
+ */
+template<typename T>
+static __forceinline bool SIMD_asCount(PyObject *pyCount, size_t &count) noexcept {
+    count = PyLong_AsSize_t(pyCount);
+    if (count == (size_t) -1 && PyErr_Occurred()) {
+        return false;
+    }
+    if (count > PY_SSIZE_T_MAX / sizeof(T)) {
+        PyErr_SetString(PyExc_OverflowError, "Count out of range.");
+        return false;
+    }
+    return true;
+}
+
 template<typename T>
 static __forceinline PyObject *SIMD_memcpy(PyObject *const *args, Py_ssize_t nargs) {
     // Ensure we have exactly 3 arguments
@@ -42,9 +69,12 @@ static __forceinline PyObject *SIMD_memcpy(PyObject *const *args, Py_ssize_t nar
     }
 
     // Extract arguments
-    auto *addressFrom = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[0]));
-    auto *addressTo = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[1]));
-    size_t count = PyLong_AsSize_t(args[2]);
+    T *addressFrom, *addressTo;
+    size_t count;
+    if (!SIMD_asAddress(args[0], addressFrom) || !SIMD_asAddress(args[1], addressTo)
+        || !SIMD_asCount<T>(args[2], count)) {
+        return nullptr;
+    }
 
     // Perform the memory copy
     simd::simdMemCpy(addressFrom, addressTo, count);
@@ -62,9 +92,12 @@ static __forceinline PyObject *SIMD_memcpyAligned(PyObject *const *args, Py_ssiz
     }
 
     // Extract arguments
-    auto *addressFrom = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[0]));
-    auto *addressTo = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[1]));
-    size_t count = PyLong_AsSize_t(args[2]);
+    T *addressFrom, *addressTo;
+    size_t count;
+    if (!SIMD_asAddress(args[0], addressFrom) || !SIMD_asAddress(args[1], addressTo)
+        || !SIMD_asCount<T>(args[2], count)) {
+        return nullptr;
+    }
 
     // Perform the memory copy
     simd::simdMemCpyAligned(addressFrom, addressTo, count);
@@ -81,8 +114,11 @@ static __forceinline PyObject *SIMD_reverse(PyObject *const *args, Py_ssize_t na
     }
 
     // Extract arguments
-    auto *address = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[0]));
-    size_t count = PyLong_AsSize_t(args[1]);
+    T *address;
+    size_t count;
+    if (!SIMD_asAddress(args[0], address) || !SIMD_asCount<T>(args[1], count)) {
+        return nullptr;
+    }
 
     // Perform the memory copy
     simd::simdReverse(address, count);
@@ -90,6 +126,35 @@ static __forceinline PyObject *SIMD_reverse(PyObject *const *args, Py_ssize_t na
     Py_RETURN_NONE;
 }
 
+/**
+ * Write the lanes args[1], args[2], ... to the vector at args[0], highest lane first.
+ */
+template<typename V, typename T>
+static __forceinline PyObject *SIMD_setVector(PyObject *const *args) noexcept {
+    constexpr size_t LANES = sizeof(V) / sizeof(T);
+
+    V *address;
+    if (!SIMD_asAddress(args[0], address)) {
+        return nullptr;
+    }
+
+    T lanes[LANES];
+    for (size_t i = 0; i < LANES; ++i) {
+        const long value = PyLong_AsLong(args[i + 1]);
+        if (value == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+        if (value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max()) {
+            PyErr_SetString(PyExc_OverflowError, "Value out of range for the lane.");
+            return nullptr;
+        }
+        lanes[LANES - 1 - i] = (T) value;
+    }
+    memcpy(address, lanes, sizeof(V));
+
+    Py_RETURN_NONE;
+}
+
 extern "C" {
 
 static PyTypeObject SIMDType = {
@@ -143,14 +208,7 @@ static PyObject *SIMD_setAVX512Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi32(
-            PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
-            PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8]),
-            PyFast_AsInt(args[9]), PyFast_AsInt(args[10]), PyFast_AsInt(args[11]), PyFast_AsInt(args[12]),
-            PyFast_AsInt(args[13]), PyFast_AsInt(args[14]), PyFast_AsInt(args[15]), PyFast_AsInt(args[16])
-    );
-
-    Py_RETURN_NONE;
+    return SIMD_setVector<__m512i, int32_t>(args);
 #else
     PyErr_SetString(PyExc_NotImplementedError, "AVX-512 is not supported on this architecture.");
     return nullptr;
@@ -165,18 +223,7 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi16(
-            PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
-            PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
-            PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
-            PyFast_AsShort(args[13]), PyFast_AsShort(args[14]), PyFast_AsShort(args[15]), PyFast_AsShort(args[16]),
-            PyFast_AsShort(args[17]), PyFast_AsShort(args[18]), PyFast_AsShort(args[19]), PyFast_AsShort(args[20]),
-            PyFast_AsShort(args[21]), PyFast_AsShort(args[22]), PyFast_AsShort(args[23]), PyFast_AsShort(args[24]),
-            PyFast_AsShort(args[25]), PyFast_AsShort(args[26]), PyFast_AsShort(args[27]), PyFast_AsShort(args[28]),
-            PyFast_AsShort(args[29]), PyFast_AsShort(args[30]), PyFast_AsShort(args[31]), PyFast_AsShort(args[32])
-    );
-
-    Py_RETURN_NONE;
+    return SIMD_setVector<__m512i, int16_t>(args);
 #else
     PyErr_SetString(PyExc_NotImplementedError, "AVX-512 is not supported on this architecture.");
     return nullptr;
@@ -191,26 +238,7 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi8(
-            PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
-            PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
-            PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
-            PyFast_AsChar(args[13]), PyFast_AsChar(args[14]), PyFast_AsChar(args[15]), PyFast_AsChar(args[16]),
-            PyFast_AsChar(args[17]), PyFast_AsChar(args[18]), PyFast_AsChar(args[19]), PyFast_AsChar(args[20]),
-            PyFast_AsChar(args[21]), PyFast_AsChar(args[22]), PyFast_AsChar(args[23]), PyFast_AsChar(args[24]),
-            PyFast_AsChar(args[25]), PyFast_AsChar(args[26]), PyFast_AsChar(args[27]), PyFast_AsChar(args[28]),
-            PyFast_AsChar(args[29]), PyFast_AsChar(args[30]), PyFast_AsChar(args[31]), PyFast_AsChar(args[32]),
-            PyFast_AsChar(args[33]), PyFast_AsChar(args[34]), PyFast_AsChar(args[35]), PyFast_AsChar(args[36]),
-            PyFast_AsChar(args[37]), PyFast_AsChar(args[38]), PyFast_AsChar(args[39]), PyFast_AsChar(args[40]),
-            PyFast_AsChar(args[41]), PyFast_AsChar(args[42]), PyFast_AsChar(args[43]), PyFast_AsChar(args[44]),
-            PyFast_AsChar(args[45]), PyFast_AsChar(args[46]), PyFast_AsChar(args[47]), PyFast_AsChar(args[48]),
-            PyFast_AsChar(args[49]), PyFast_AsChar(args[50]), PyFast_AsChar(args[51]), PyFast_AsChar(args[52]),
-            PyFast_AsChar(args[53]), PyFast_AsChar(args[54]), PyFast_AsChar(args[55]), PyFast_AsChar(args[56]),
-            PyFast_AsChar(args[57]), PyFast_AsChar(args[58]), PyFast_AsChar(args[59]), PyFast_AsChar(args[60]),
-            PyFast_AsChar(args[61]), PyFast_AsChar(args[62]), PyFast_AsChar(args[63]), PyFast_AsChar(args[64])
-    );
-
-    Py_RETURN_NONE;
+    return SIMD_setVector<__m512i, int8_t>(args);
 #else
     PyErr_SetString(PyExc_NotImplementedError, "AVX-512 is not supported on this architecture.");
     return nullptr;
@@ -225,12 +253,7 @@ static PyObject *SIMD_setAVX2Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi32(
-            PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
-            PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8])
-    );
-
-    Py_RETURN_NONE;
+    return SIMD_setVector<__m256i, int32_t>(args);
 #else
     PyErr_SetString(PyExc_NotImplementedError, "AVX-2 is not supported on this architecture.");
     return nullptr;
@@ -245,14 +268,7 @@ static PyObject *SIMD_setAVX2Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi16(
-            PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
-            PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
-            PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
-            PyFast_AsShort(args[13]), PyFast_AsShort(args[14]), PyFast_AsShort(args[15]), PyFast_AsShort(args[16])
-    );
-
-    Py_RETURN_NONE;
+    return SIMD_setVector<__m256i, int16_t>(args);
 #else
     PyErr_SetString(PyExc_NotImplementedError, "AVX-2 is not supported on this architecture.");
     return nullptr;
@@ -267,18 +283,7 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi8(
-            PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
-            PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
-            PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
-            PyFast_AsChar(args[13]), PyFast_AsChar(args[14]), PyFast_AsChar(args[15]), PyFast_AsChar(args[16]),
-            PyFast_AsChar(args[17]), PyFast_AsChar(args[18]), PyFast_AsChar(args[19]), PyFast_AsChar(args[20]),
-            PyFast_AsChar(args[21]), PyFast_AsChar(args[22]), PyFast_AsChar(args[23]), PyFast_AsChar(args[24]),
-            PyFast_AsChar(args[25]), PyFast_AsChar(args[26]), PyFast_AsChar(args[27]), PyFast_AsChar(args[28]),
-            PyFast_AsChar(args[29]), PyFast_AsChar(args[30]), PyFast_AsChar(args[31]), PyFast_AsChar(args[32])
-    );
-
-    Py_RETURN_NONE;
+    return SIMD_setVector<__m256i, int8_t>(args);
 #else
     PyErr_SetString(PyExc_NotImplementedError, "AVX-2 is not supported on this architecture.");
     return nullptr;
-- 
2.43.0


From f645b038d887f869c8c39d74c8eb60cefd1f28be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 17/25] fix: Unsafe reports failed conversions, as_object
 returns a new reference, fgets frees its buffer

---
 pyfastutil/src/unsafe/Unsafe.cpp | 45 ++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 1794475..6efa0e8 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -216,7 +216,13 @@ static PyObject *Unsafe_call([[maybe_unused]] PyObject *__restrict self,
     }
 
     void *func = PyLong_AsVoidPtr(args[0]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
     void *result = PyLong_AsVoidPtr(args[1]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
     size_t size = PyLong_AsSize_t(args[2]);
     if (PyErr_Occurred()) {
         return nullptr;
@@ -247,7 +253,15 @@ static PyObject *Unsafe_getAddress([[maybe_unused]] PyObject *self, PyObject *py
 }
 
 static PyObject *Unsafe_as_object([[maybe_unused]] PyObject *self, PyObject *pyAddress) {
-    return reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    auto *object = reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    if (object == nullptr) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "Address must not be null.");
+        }
+        return nullptr;
+    }
+    Py_INCREF(object);
+    return object;
 }
 
 static PyObject *Unsafe_memcpy([[maybe_unused]] PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
@@ -259,7 +273,13 @@ static PyObject *Unsafe_memcpy([[maybe_unused]] PyObject *self, PyObject *const
 
     // Extract arguments
     void *addressFrom = PyLong_AsVoidPtr(args[0]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
     void *addressTo = PyLong_AsVoidPtr(args[1]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
     size_t size = PyLong_AsSize_t(args[2]);
 
     // Check for conversion errors
@@ -282,7 +302,13 @@ static PyObject *Unsafe_memset([[maybe_unused]] PyObject *self, PyObject *const
 
     // Extract arguments
     void *address = PyLong_AsVoidPtr(args[0]);
-    int val = PyLong_AsLong(args[1]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    int val = PyFast_AsInt(args[1]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
     size_t size = PyLong_AsSize_t(args[2]);
 
     // Check for conversion errors
@@ -337,20 +363,29 @@ static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBuf
         return nullptr;
     }
 
-    int bufferSize = (int) PyLong_AsLong(pyBufferSize);
+    int bufferSize = PyFast_AsInt(pyBufferSize);
+    if (bufferSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (bufferSize <= 0) {
         PyErr_SetString(PyExc_ValueError, "Buffer size must be positive.");
         return nullptr;
     }
 
-    char *buffer = new char[bufferSize];
+    auto *buffer = (char *) malloc((size_t) bufferSize);
+    if (buffer == nullptr) {
+        return PyErr_NoMemory();
+    }
 
     if (fgets(buffer, bufferSize, stdin) == nullptr) {
+        free(buffer);
         PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
         return nullptr;
     }
 
-    return Py_BuildValue("s", buffer);
+    PyObject *result = Py_BuildValue("s", buffer);
+    free(buffer);
+    return result;
 }
 
 static PyMethodDef Unsafe_methods[] = {
-- 
2.43.0


From 83897cfa4f9b4bdf20ac4d6061eb658c4addfba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 18/25] fix: module initialisation reports failed submodules

---
 pyfastutil/src/PyFastUtil.cpp | 56 ++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/PyFastUtil.cpp b/pyfastutil/src/PyFastUtil.cpp
index 8677f81..663d661 100644
--- a/pyfastutil/src/PyFastUtil.cpp
+++ b/pyfastutil/src/PyFastUtil.cpp
@@ -3,6 +3,7 @@
 //
 
 #include "PyFastUtil.h"
+#include <exception>
 #include "utils/simd/BitonicSort.h"
 #include "ints/IntArrayList.h"
 #include "ints/IntArrayListIter.h"
@@ -28,33 +29,52 @@ static struct PyModuleDef pyfastutilModule = {
         nullptr, nullptr, nullptr, nullptr, nullptr
 };
 
+/**
+ * Add the submodule to the parent, takes the reference to it.
+ */
+static bool addSubmodule(PyObject *parent, const char *name, PyObject *module) noexcept {
+    if (module == nullptr) {
+        return false;
+    }
+    if (PyModule_AddObject(parent, name, module) < 0) {
+        Py_DECREF(module);
+        return false;
+    }
+    return true;
+}
+
 #pragma clang diagnostic push
 #pragma ide diagnostic ignored "bugprone-reserved-identifier"
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit___pyfastutil() {
-    simd::initBitonicSort();
+    try {
+        simd::initBitonicSort();
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_MemoryError, e.what());
+        return nullptr;
+    }
 
     PyObject *parent = PyModule_Create(&pyfastutilModule);
     if (parent == nullptr)
         return nullptr;
 
-    PyModule_AddObject(parent, "IntArrayList", PyInit_IntArrayList());
-    PyModule_AddObject(parent, "IntArrayListIter", PyInit_IntArrayListIter());
-    PyModule_AddObject(parent, "BigIntArrayList", PyInit_BigIntArrayList());
-    PyModule_AddObject(parent, "BigIntArrayListIter", PyInit_BigIntArrayListIter());
-    PyModule_AddObject(parent, "IntLinkedList", PyInit_IntLinkedList());
-    PyModule_AddObject(parent, "IntLinkedListIter", PyInit_IntLinkedListIter());
-//    PyModule_AddObject(parent, "IntIntHashMap", PyInit_IntIntHashMap());
-
-    PyModule_AddObject(parent, "ObjectArrayList", PyInit_ObjectArrayList());
-    PyModule_AddObject(parent, "ObjectArrayListIter", PyInit_ObjectArrayListIter());
-    PyModule_AddObject(parent, "ObjectLinkedList", PyInit_ObjectLinkedList());
-    PyModule_AddObject(parent, "ObjectLinkedListIter", PyInit_ObjectLinkedListIter());
-
-    PyModule_AddObject(parent, "Unsafe", PyInit_Unsafe());
-    PyModule_AddObject(parent, "SIMD", PyInit_SIMD());
-    PyModule_AddObject(parent, "SIMDLowAVX512", PyInit_SIMDLowAVX512());
-    PyModule_AddObject(parent, "ASM", PyInit_ASM());
+    if (!addSubmodule(parent, "IntArrayList", PyInit_IntArrayList())
+        || !addSubmodule(parent, "IntArrayListIter", PyInit_IntArrayListIter())
+        || !addSubmodule(parent, "BigIntArrayList", PyInit_BigIntArrayList())
+        || !addSubmodule(parent, "BigIntArrayListIter", PyInit_BigIntArrayListIter())
+        || !addSubmodule(parent, "IntLinkedList", PyInit_IntLinkedList())
+        || !addSubmodule(parent, "IntLinkedListIter", PyInit_IntLinkedListIter())
+        || !addSubmodule(parent, "ObjectArrayList", PyInit_ObjectArrayList())
+        || !addSubmodule(parent, "ObjectArrayListIter", PyInit_ObjectArrayListIter())
+        || !addSubmodule(parent, "ObjectLinkedList", PyInit_ObjectLinkedList())
+        || !addSubmodule(parent, "ObjectLinkedListIter", PyInit_ObjectLinkedListIter())
+        || !addSubmodule(parent, "Unsafe", PyInit_Unsafe())
+        || !addSubmodule(parent, "SIMD", PyInit_SIMD())
+        || !addSubmodule(parent, "SIMDLowAVX512", PyInit_SIMDLowAVX512())
+        || !addSubmodule(parent, "ASM", PyInit_ASM())) {
+        Py_DECREF(parent);
+        return nullptr;
+    }
 
     return parent;
 }
-- 
2.43.0


From 08eb6e5cb5f6c8e2b024c8467edc216832b0cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 19/25] fix: IntLinkedList survives callbacks and failed
 conversions

---
 pyfastutil/src/ints/IntLinkedList.cpp | 601 ++++++++++++--------------
 1 file changed, 266 insertions(+), 335 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b7096fa..b21ea44 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -5,7 +5,9 @@
 #include "IntLinkedList.h"
 #include <list>
 #include <algorithm>
+#include <climits>
 #include <stdexcept>
+#include <vector>
 #include "utils/PythonUtils.h"
 #include "utils/include/TimSort.h"
 #include "utils/simd/BitonicSort.h"
@@ -20,10 +22,16 @@ static PyTypeObject IntLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->list) std::list<PyObject *>();
-    self->modCount = 0;
+static PyObject *IntLinkedList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *self = PyType_GenericNew(type, args, kwargs);
+    if (self != nullptr) {
+        new(&reinterpret_cast<IntLinkedList *>(self)->list) std::list<int>();
+        reinterpret_cast<IntLinkedList *>(self)->modCount = 0;
+    }
+    return self;
+}
 
+static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
 
     static constexpr const char *kwlist[] = {"iterable", nullptr};
@@ -35,55 +43,55 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
 
     // init list
     try {
+        std::list<int> items;
+
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &IntLinkedListType) {  // IntLinkedList is a final class
                 auto *iter = reinterpret_cast<IntLinkedList *>(pyIterable);
-                self->list = iter->list;
-                return 0;
-            }
-
-            if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntLinkedList).");
-                if (fastKeys == nullptr) {
-                    return -1;
-                }
-
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
-                    if (PyErr_Occurred()) {
-                        SAFE_DECREF(fastKeys);
+                items = iter->list;
+            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+                // a conversion may run user code that changes the list
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(pyIterable); ++i) {
+                    PyObject *item = PySequence_Fast_GET_ITEM(pyIterable, i);
+                    Py_INCREF(item);
+                    int value = PyFast_AsInt(item);
+                    SAFE_DECREF(item);
+                    if (value == -1 && PyErr_Occurred()) {
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                         return -1;
                     }
-                    self->list.push_back(value);
+                    items.push_back(value);
+                }
+            } else {
+                PyObject *iter = PyObject_GetIter(pyIterable);
+                if (iter == nullptr) {
+                    PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
+                    return -1;
                 }
-                SAFE_DECREF(fastKeys);
-                return 0;
-            }
-
-            PyObject *iter = PyObject_GetIter(pyIterable);
-            if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
-                return -1;
-            }
 
-            PyObject *item;
-            while ((item = PyIter_Next(iter)) != nullptr) {
-                int value = PyLong_AsLong(item);
-                if (PyErr_Occurred()) {
-                    SAFE_DECREF(iter);
+                PyObject *item;
+                while ((item = PyIter_Next(iter)) != nullptr) {
+                    int value = PyFast_AsInt(item);
                     SAFE_DECREF(item);
-                    PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
-                    return -1;
+                    if (value == -1 && PyErr_Occurred()) {
+                        SAFE_DECREF(iter);
+                        PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
+                        return -1;
+                    }
+                    try {
+                        items.push_back(value);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(iter);
+                        throw;
+                    }
                 }
-                self->list.push_back(value);
-                SAFE_DECREF(item);
+                SAFE_DECREF(iter);
+                if (PyErr_Occurred()) return -1;
             }
-            SAFE_DECREF(iter);
-            if (PyErr_Occurred()) return -1;
         }
+
+        self->list.swap(items);
+        self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
@@ -108,28 +116,21 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
     if (list == nullptr) return PyErr_NoMemory();
 
     try {
-        Py_ssize_t elements;
-        if (step > 0) {
-            if (start >= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = (stop - start + step - 1) / step;
-        } else { // step < 0
-            if (start <= stop) {
-                return reinterpret_cast<PyObject *>(list);
-            }
-            elements = ((start - stop) / (-step));
-        }
+        const size_t elements = PyFast_RangeLength(start, stop, step);
 
         Py_ssize_t current = start;
-        for (Py_ssize_t idx = 0; idx < elements; ++idx) {
+        for (size_t idx = 0; idx < elements; ++idx) {
+            if (current < INT_MIN || current > INT_MAX) {
+                SAFE_DECREF(list);
+                PyErr_SetString(PyExc_OverflowError, "range element does not fit a C int");
+                return nullptr;
+            }
             list->list.push_back(static_cast<int>(current));
             current += step;
         }
 
     } catch (const std::exception &e) {
-        list->list.~list();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -147,9 +148,12 @@ static PyObject *IntLinkedList_to_list(PyObject *pySelf) {
     auto iter = self->list.begin();
     for (Py_ssize_t i = 0; i < size; ++i, ++iter) {
         PyObject *item = PyFast_FromInt(*iter);
+        if (item == nullptr) {
+            SAFE_DECREF(result);
+            return nullptr;
+        }
 
         PyList_SET_ITEM(result, i, item);
-        Py_INCREF(item);
     }
 
     return result;
@@ -164,7 +168,7 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
     try {
         copy->list = self->list;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -175,13 +179,13 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
 static PyObject *IntLinkedList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    PyObject *value = object;
-    if (PyErr_Occurred()) {
+    int value = PyFast_AsInt(object);
+    if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
 
     try {
-        self->list.push_back(PyLong_AsLong(value));
+        self->list.push_back(value);
         self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -205,8 +209,13 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     // fast extend
     if (Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        self->modCount++;
+        try {
+            self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+            self->modCount++;
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -217,18 +226,25 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
+    try {
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyFast_AsInt(item);
             SAFE_DECREF(item);
-            return nullptr;
-        }
 
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
+            if (value == -1 && PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->list.push_back(value);
+            self->modCount++;
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -269,16 +285,19 @@ static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, cons
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
-        const auto popped = self->list.back();
+        PyObject *popped = PyFast_FromInt(self->list.back());
+        if (popped == nullptr) return nullptr;
         self->list.pop_back();
         self->modCount++;
-        return PyFast_FromInt(popped);
+        return popped;
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    auto iter = at(self->list, index);
+    PyObject *popped = PyFast_FromInt(*iter);
+    if (popped == nullptr) return nullptr;
+    self->list.erase(iter);
     self->modCount++;
-    return PyFast_FromInt(*popped);
+    return popped;
 }
 
 static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -326,7 +345,7 @@ static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    int value = PyFast_AsInt(object);
     if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
@@ -374,8 +393,8 @@ static PyObject *IntLinkedList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
-    if (PyErr_Occurred()) {
+    int value = PyFast_AsInt(object);
+    if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
 
@@ -409,7 +428,7 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
     }
 
     if (keyFunc == Py_None) {
-        if (reverseInt == 1) {
+        if (reverseInt != 0) {
             self->list.sort(std::greater());
         } else {
             self->list.sort();
@@ -418,29 +437,47 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
     } else {
         // costs extra memory
         const auto vecSize = self->list.size();
-        auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
+        auto **pyData = static_cast<PyObject **>(PyMem_Calloc(vecSize, sizeof(PyObject *)));
         if (pyData == nullptr) {
             PyErr_NoMemory();
             return nullptr;
         }
 
+        bool failed = false;
         auto iter = self->list.begin();
-        for (size_t i = 0; i < vecSize; ++i, ++iter) {
+        for (size_t i = 0; i < vecSize && !failed; ++i, ++iter) {
             pyData[i] = PyFast_FromInt(*iter);
+            failed = pyData[i] == nullptr;
+        }
+
+        if (!failed) {
+            // the key function may run any code
+            PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            failed = result == nullptr;
+            Py_XDECREF(result);
+        }
+
+        if (!failed && self->list.size() != vecSize) {
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+            failed = true;
         }
 
-        CPython_sort(pyData,
-                     static_cast<Py_ssize_t>(vecSize),
-                     keyFunc, reverseInt);
+        if (!failed) {
+            iter = self->list.begin();
+            for (size_t i = 0; i < vecSize; ++i, ++iter) {
+                *iter = PyFast_AsInt(pyData[i]);
+            }
+            self->modCount++;
+        }
 
-        iter = self->list.begin();
-        for (size_t i = 0; i < vecSize; ++i, ++iter) {
-            *iter = PyFast_AsInt(pyData[i]);
-            Py_DECREF(pyData[i]);
+        for (size_t i = 0; i < vecSize; ++i) {
+            Py_XDECREF(pyData[i]);
         }
 
         PyMem_FREE(pyData);
-        self->modCount++;
+        if (failed) {
+            return nullptr;
+        }
     }
 
     Py_RETURN_NONE;
@@ -476,9 +513,7 @@ static PyObject *IntLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
     }
 
     try {
-        PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
-        Py_INCREF(item);
-        return item;
+        return PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -511,7 +546,6 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
         Py_ssize_t index = start + i * step;
         PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(index)));
-        Py_INCREF(item);
         if (item == nullptr) {
             SAFE_DECREF(result);
             return nullptr;
@@ -524,6 +558,15 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
 static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
+    // the conversion may run user code, so it comes before the bounds check
+    int value = 0;
+    if (pyValue != nullptr) {
+        value = PyFast_AsInt(pyValue);
+        if (value == -1 && PyErr_Occurred()) {
+            return -1;
+        }
+    }
+
     auto size = static_cast<Py_ssize_t>(self->list.size());
 
     if (pyIndex < 0) {
@@ -538,13 +581,9 @@ static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
             self->list.erase(iter);
+            self->modCount++;
         } else {
-            PyObject *value = pyValue;
-            if (PyErr_Occurred()) {
-                return -1;
-            }
-
-            *at(self->list, static_cast<size_t>(pyIndex)) = PyLong_AsLong(value);
+            *at(self->list, static_cast<size_t>(pyIndex)) = value;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -570,88 +609,44 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
     try {
-        auto iter = at(self->list, static_cast<size_t>(start));
-
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
+        // convert everything first: this may run user code and may fail
+        std::vector<int> items;
+        const Py_ssize_t newLength = value == nullptr ? 0 : PySequence_Size(value);
+        if (newLength < 0) {
+            return -1;
+        }
 
-            auto eraseStart = iter;
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                ++iter;
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            PyObject *item = PySequence_GetItem(value, i);
+            if (item == nullptr) {
+                return -1;
             }
-            self->list.erase(eraseStart, iter);
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
 
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
+            const int element = PyFast_AsInt(item);
+            SAFE_DECREF(item);
+            if (element == -1 && PyErr_Occurred()) {
+                return -1;
             }
+            items.push_back(element);
+        }
 
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
 
-                self->list.insert(iter, PyLong_AsLong(item));
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-        }
+        auto first = at(self->list, static_cast<size_t>(start));
+        self->list.insert(first, items.begin(), items.end());
+        self->list.erase(first, at(self->list, static_cast<size_t>(start + newLength + sliceLength)));
+        self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
@@ -665,12 +660,13 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> IntLinkedList
         auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType, pySelf);
+        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->list = reinterpret_cast<IntLinkedList *>(pySelf)->list;
             result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
@@ -697,40 +693,12 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
-        auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            SAFE_DECREF(item);
-            return nullptr;
-        }
-
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = IntLinkedList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
 
-    SAFE_DECREF(iter);
+    SAFE_DECREF(result);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -753,6 +721,11 @@ static PyObject *IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
     }
 
     try {
+        if (self->list.size() > result->list.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
         for (Py_ssize_t i = 0; i < n; ++i) {
             result->list.insert(result->list.end(), self->list.begin(), self->list.end());
         }
@@ -790,12 +763,18 @@ static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
         if (n == 0) {
             self->list.clear();
         } else {
-            const auto begin = self->list.begin();
-            const auto end = self->list.end();
+            if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
+            const std::list<int> items = self->list;
+            std::list<int> added;
             for (Py_ssize_t i = 1; i < n; ++i) {
-                self->list.insert(self->list.end(), begin, end);
+                added.insert(added.end(), items.begin(), items.end());
             }
+            self->list.splice(self->list.end(), added);
         }
+        self->modCount++;
 
         Py_INCREF(pySelf);
         return pySelf;
@@ -812,13 +791,16 @@ static int IntLinkedList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(key);
+    long value = PyLong_AsLong(key);
     if (PyErr_Occurred()) {
         return -1;
     }
 
     try {
-        if (std::find(self->list.begin(), self->list.end(), value) != self->list.end()) {
+        if (value < INT_MIN || value > INT_MAX) {
+            return 0;  // no element can be equal
+        }
+        if (std::find(self->list.begin(), self->list.end(), static_cast<int>(value)) != self->list.end()) {
             return 1;  // true
         } else {
             return 0;  // false
@@ -850,6 +832,7 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     self->list.clear();
+    self->modCount++;
     Py_RETURN_NONE;
 }
 
@@ -860,25 +843,37 @@ static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyVa
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
         Py_RETURN_FALSE;
 
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
+    try {
+        // user code may change the list during the comparison
+        const std::vector<int> values(self->list.begin(), self->list.end());
+
+        for (Py_ssize_t i = 0; i < seq_size; i++) {
+            PyObject *item = PySequence_GetItem(pyValue, i);
+            if (item == nullptr)
+                return nullptr;
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be convert to int
+            long other_value = PyLong_AsLong(item);
             SAFE_DECREF(item);
-            Py_RETURN_FALSE;
-        }
+            if (other_value == -1 && PyErr_Occurred()) {  // can't be convert to int
+                if (!PyErr_ExceptionMatches(PyExc_TypeError) && !PyErr_ExceptionMatches(PyExc_OverflowError)) {
+                    return nullptr;
+                }
+                PyErr_Clear();
+                Py_RETURN_FALSE;
+            }
 
-        SAFE_DECREF(item);
-        if (self_value != other_value)
-            Py_RETURN_FALSE;
+            int self_value = values[i];
+            if (self_value != other_value)
+                Py_RETURN_FALSE;
+        }
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     Py_RETURN_TRUE;
@@ -886,6 +881,7 @@ static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyVa
 
 static __forceinline PyObject *IntLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntLinkedList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -895,7 +891,10 @@ static __forceinline PyObject *IntLinkedList_ne(PyObject *pySelf, PyObject *pyVa
     }
 }
 
-static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
+/**
+ * Lexicographic order, like list: the first items that differ decide, then the sizes.
+ */
+static __forceinline PyObject *IntLinkedList_order(PyObject *pySelf, PyObject *pyValue, const int op) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     if (!PySequence_Check(pyValue)) {
@@ -907,120 +906,47 @@ static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+    try {
+        // user code may change the list during the comparison
+        const std::vector<int> values(self->list.begin(), self->list.end());
+        const auto selfSize = static_cast<Py_ssize_t>(values.size());
+
+        for (Py_ssize_t i = 0; i < std::min(selfSize, seqSize); ++i) {
+            PyObject *item = PySequence_GetItem(pyValue, i);
+            if (item == nullptr) {
+                return nullptr;
+            }
 
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
+            long self_value = values[i];
+            long other_value = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+            if (other_value == -1 && PyErr_Occurred()) {
+                return nullptr;
+            }
+            if (self_value != other_value) Py_RETURN_RICHCOMPARE(self_value, other_value, op);
         }
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
+        Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
+}
 
-    Py_RETURN_FALSE;
+static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
+    return IntLinkedList_order(pySelf, pyValue, Py_LT);
 }
 
 static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
-    }
-
-    Py_RETURN_FALSE;
+    return IntLinkedList_order(pySelf, pyValue, Py_LE);
 }
 
 static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
-    }
-
-    Py_RETURN_FALSE;
+    return IntLinkedList_order(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
-    }
-
-    Py_RETURN_FALSE;
+    return IntLinkedList_order(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *IntLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
@@ -1058,27 +984,32 @@ static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        auto iter = vec.begin();
+        for (size_t i = 0; i < lastIdx; ++i, ++iter) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    auto iter = vec.begin();
-    for (size_t i = 0; i < lastIdx; ++i, ++iter) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+        int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
         str.append(buffer, len);
-        str += ", ";
-    }
 
-    int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
-    str.append(buffer, len);
+        str += "]";
 
-    str += "]";
-
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntLinkedList_str(PyObject *pySelf) {
@@ -1144,7 +1075,7 @@ void initializeIntLinkedListType(PyTypeObject &type) {
     type.tp_iter = IntLinkedList_iter;
     type.tp_methods = IntLinkedList_methods;
     type.tp_init = (initproc) IntLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntLinkedList_new;
     type.tp_dealloc = (destructor) IntLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 216b1403d340ca87e3680f88940e3ad6a39e6ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 20/25] fix: ObjectLinkedList survives callbacks and failed
 conversions

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 557 +++++++++-----------
 1 file changed, 251 insertions(+), 306 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 3143c81..2bf282d 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -6,6 +6,7 @@
 #include <list>
 #include <algorithm>
 #include <stdexcept>
+#include <vector>
 #include "utils/PythonUtils.h"
 #include "utils/include/TimSort.h"
 #include "utils/simd/BitonicSort.h"
@@ -20,10 +21,28 @@ static PyTypeObject ObjectLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->list) std::list<PyObject *>();
-    self->modCount = 0;
+/**
+ * Release all elements. The container is empty before the first one is released,
+ * because their finalizers may run any code.
+ */
+static __forceinline void releaseItems(std::list<PyObject *> &list) noexcept {
+    std::list<PyObject *> items;
+    items.swap(list);
+    for (PyObject *item: items) {
+        SAFE_DECREF(item);
+    }
+}
 
+static PyObject *ObjectLinkedList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *self = PyType_GenericNew(type, args, kwargs);
+    if (self != nullptr) {
+        new(&reinterpret_cast<ObjectLinkedList *>(self)->list) std::list<PyObject *>();
+        reinterpret_cast<ObjectLinkedList *>(self)->modCount = 0;
+    }
+    return self;
+}
+
+static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
     PyObject *pyIterable = nullptr;
 
     static constexpr const char *kwlist[] = {"iterable", nullptr};
@@ -34,56 +53,61 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
     }
 
     // init list
+    std::list<PyObject *> items;
     try {
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectLinkedListType) {  // ObjectLinkedList is a final class
                 auto *iter = reinterpret_cast<ObjectLinkedList *>(pyIterable);
-                self->list = iter->list;
-                return 0;
-            }
+                items.insert(items.end(), iter->list.begin(), iter->list.end());
+                for (PyObject *item: items) {
+                    Py_INCREF(item);
+                }
+            } else if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
+                const auto size = PySequence_Fast_GET_SIZE(pyIterable);
+                auto fastItems = PySequence_Fast_ITEMS(pyIterable);
 
-            if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectLinkedList).");
-                if (fastKeys == nullptr) {
+                items.insert(items.end(), fastItems, fastItems + size);
+                for (PyObject *item: items) {
+                    Py_INCREF(item);
+                }
+            } else {
+                PyObject *iter = PyObject_GetIter(pyIterable);
+                if (iter == nullptr) {
+                    PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    PyObject *value = items[i];
-                    Py_INCREF(value);
-                    self->list.push_back(value);
+                PyObject *item;
+                while ((item = PyIter_Next(iter)) != nullptr) {
+                    try {
+                        items.push_back(item);
+                    } catch (const std::exception &) {
+                        SAFE_DECREF(item);
+                        SAFE_DECREF(iter);
+                        throw;
+                    }
+                }
+                SAFE_DECREF(iter);
+                if (PyErr_Occurred()) {
+                    releaseItems(items);
+                    return -1;
                 }
-                SAFE_DECREF(fastKeys);
-                return 0;
-            }
-
-            PyObject *iter = PyObject_GetIter(pyIterable);
-            if (iter == nullptr) {
-                PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
-                return -1;
-            }
-
-            PyObject *item;
-            while ((item = PyIter_Next(iter)) != nullptr) {
-                self->list.push_back(item);
             }
-            SAFE_DECREF(iter);
-            if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        releaseItems(items);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    items.swap(self->list);
+    self->modCount++;
+    releaseItems(items);
     return 0;
 }
 
 static void ObjectLinkedList_dealloc(ObjectLinkedList *self) {
-    for (PyObject *item: self->list) {
-        SAFE_DECREF(item);
-    }
+    releaseItems(self->list);
     self->list.~list();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -122,7 +146,7 @@ static PyObject *ObjectLinkedList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -164,11 +188,18 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     // fast extend
     if (Py_TYPE(iterable) == &ObjectLinkedListType) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
+        try {
+            // the iterable may be the list itself
+            std::list<PyObject *> added(iter->list);
+            for (const auto &item: added) {
+                Py_INCREF(item);
+            }
+            self->list.splice(self->list.end(), added);
+            self->modCount++;
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
-        self->modCount++;
         Py_RETURN_NONE;
     }
 
@@ -179,16 +210,18 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    PyObject *item = nullptr;
+    try {
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            self->list.push_back(item);
+            self->modCount++;
         }
-
-        self->list.push_back(item);
+    } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -235,10 +268,11 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
         return popped;
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    auto iter = at(self->list, index);
+    PyObject *popped = *iter;
+    self->list.erase(iter);
     self->modCount++;
-    return *popped;
+    return popped;
 }
 
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -340,8 +374,8 @@ static PyObject *ObjectLinkedList_remove(PyObject *pySelf, PyObject *object) {
 
         if (it != self->list.end()) {
             self->list.erase(it);
-            SAFE_DECREF(value);
             self->modCount++;
+            SAFE_DECREF(value);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
             return nullptr;
@@ -366,31 +400,35 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
     }
 
     // costs extra memory
-    const auto vecSize = self->list.size();
-    auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
-    if (pyData == nullptr) {
-        PyErr_NoMemory();
+    std::vector<PyObject *> data;
+    try {
+        data.assign(self->list.begin(), self->list.end());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
 
-    auto iter = self->list.begin();
-    for (size_t i = 0; i < vecSize; ++i, ++iter) {
-        pyData[i] = *iter;
-    }
-
-    CPython_sort(pyData,
-                 static_cast<Py_ssize_t>(vecSize),
-                 keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    // do sort, the list is empty while comparisons run user code
+    std::list<PyObject *> items;
+    items.swap(self->list);
+    self->modCount++;
 
-    iter = self->list.begin();
-    for (size_t i = 0; i < vecSize; ++i, ++iter) {
-        *iter = pyData[i];
-    }
+    PyObject *result = CPython_sort(data.data(),
+                                    static_cast<Py_ssize_t>(data.size()),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
 
-    PyMem_FREE(pyData);
+    std::copy(data.begin(), data.end(), items.begin());
+    items.swap(self->list);
     self->modCount++;
 
-    Py_RETURN_NONE;
+    if (!items.empty()) {
+        releaseItems(items);
+        if (result != nullptr) {
+            SAFE_DECREF(result);
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        }
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectLinkedList_len(PyObject *pySelf) {
@@ -484,16 +522,21 @@ static int ObjectLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObje
     try {
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
-            SAFE_DECREF(*iter);
+            PyObject *removed = *iter;
             self->list.erase(iter);
+            self->modCount++;
+            SAFE_DECREF(removed);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = value;
+            auto iter = at(self->list, static_cast<size_t>(pyIndex));
+            PyObject *replaced = *iter;
+            *iter = value;
             Py_INCREF(value);
+            SAFE_DECREF(replaced);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -519,56 +562,55 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
+    if (value != nullptr && !PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-    if (newLength < 0) {
+    // get all items first: this may run user code and may fail
+    PyObject *sequence = value == nullptr ? PyTuple_New(0) : PySequence_Tuple(value);
+    if (sequence == nullptr) {
         return -1;
     }
+    PyObject **items = PySequence_Fast_ITEMS(sequence);
+    const Py_ssize_t newLength = PySequence_Fast_GET_SIZE(sequence);
 
-    PyObject *item = nullptr;
-    try {
-        if (newLength < sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(start + newLength * step));
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(*iter);
-                iter = self->list.erase(iter);
-            }
-        } else if (newLength > sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(stop));
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-                iter = self->list.insert(iter, item);
-                ++iter;
-            }
-        }
-
-        for (Py_ssize_t i = 0; i < newLength; i++) {
-            Py_ssize_t index = start + i * step;
-            auto iter = at(self->list, static_cast<size_t>(index));
-
-            item = PySequence_GetItem(value, i);
-            if (item == nullptr) {
-                return -1;
-            }
+    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
 
-            SAFE_DECREF(*iter);
-            *iter = item;
+    if (step != 1) {
+        int result = 0;
+        if (newLength != sliceLength) {
+            PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for a slice assignment that changes the size");
+            result = -1;
         }
+        for (Py_ssize_t i = 0; i < newLength && result == 0; ++i) {
+            result = ObjectLinkedList_setitem(pySelf, start + i * step, items[i]);
+        }
+        SAFE_DECREF(sequence);
+        return result;
+    }
+
+    std::list<PyObject *> added;
+    try {
+        added.assign(items, items + newLength);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        SAFE_DECREF(sequence);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
+    for (PyObject *item: added) {
+        Py_INCREF(item);
+    }
+
+    std::list<PyObject *> removed;
+    const auto first = at(self->list, static_cast<size_t>(start));
+    const auto last = at(self->list, static_cast<size_t>(start + sliceLength));
+    removed.splice(removed.end(), self->list, first, last);
+    self->list.splice(last, added);
+    self->modCount++;
 
+    SAFE_DECREF(sequence);
+    releaseItems(removed);
     return 0;
 }
 
@@ -577,16 +619,21 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> ObjectLinkedList
         auto *value = reinterpret_cast<ObjectLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType, pySelf);
+        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
-            for (const auto &item: value->list) {
+            auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
+            result->list.insert(result->list.end(), self->list.begin(), self->list.end());
+            for (const auto &item: self->list) {
                 Py_INCREF(item);
             }
             result->list.insert(result->list.end(), value->list.begin(), value->list.end());
+            for (const auto &item: value->list) {
+                Py_INCREF(item);
+            }
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
@@ -612,43 +659,12 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
-        auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
-        }
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->list.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = ObjectLinkedList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
@@ -671,6 +687,11 @@ static PyObject *ObjectLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
     }
 
     try {
+        if (self->list.size() > result->list.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
         for (Py_ssize_t i = 0; i < n; ++i) {
             for (const auto obj: self->list) {
                 result->list.push_back(obj);
@@ -709,9 +730,15 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->list.clear();
+            self->modCount++;
+            releaseItems(self->list);
         } else {
             const auto size = self->list.size();
+            if (size > self->list.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
+
+            self->modCount++;
             for (Py_ssize_t i = 1; i < n; ++i) {
                 auto iter = self->list.begin();
                 for (size_t j = 0; j < size; ++j, ++iter) {
@@ -770,82 +797,68 @@ static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    for (auto &item: self->list) {
-        SAFE_DECREF(item);
-    }
-    self->list.clear();
+    self->modCount++;
+    releaseItems(self->list);
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
+/**
+ * Compare item by item, with the relation Py_EQ or Py_NE.
+ */
+static __forceinline PyObject *ObjectLinkedList_equality(PyObject *pySelf, PyObject *pyValue, const int op) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
+        Py_RETURN_BOOL(op == Py_NE)
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_FALSE;
+        Py_RETURN_BOOL(op == Py_NE)
 
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
+    // user code may change the list during the comparison
+    PyObject *values = ObjectLinkedList_to_list(pySelf);
+    if (values == nullptr)
+        return nullptr;
+
+    for (Py_ssize_t i = 0; i < PyList_GET_SIZE(values); i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
+        if (item == nullptr) {
+            SAFE_DECREF(values);
             return nullptr;
-
-        PyObject *self_value = *iter;
-        PyObject *other_value = item;
+        }
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
+        int cmpResult = PyObject_RichCompareBool(PyList_GET_ITEM(values, i), item, op);
         SAFE_DECREF(item);
         if (cmpResult < 0) {
+            SAFE_DECREF(values);
             return nullptr;
         }
 
-        if (cmpResult == 0) {
-            Py_RETURN_FALSE;
+        if (cmpResult == (op == Py_NE)) {
+            SAFE_DECREF(values);
+            Py_RETURN_BOOL(op == Py_NE)
         }
     }
 
-    Py_RETURN_TRUE;
+    SAFE_DECREF(values);
+    Py_RETURN_BOOL(op == Py_EQ)
 }
 
-static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_TRUE;
-
-    // compare
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_TRUE;
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        PyObject *self_value = *iter;
-        PyObject *other_value = item;
-
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult != 0) {
-            Py_RETURN_TRUE;
-        }
-    }
-
-    Py_RETURN_FALSE;
+static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
+    return ObjectLinkedList_equality(pySelf, pyValue, Py_EQ);
 }
 
-static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
+static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
+    return ObjectLinkedList_equality(pySelf, pyValue, Py_NE);
+}
 
+/**
+ * Lexicographic order, like list: the first items that differ decide, then the sizes.
+ */
+static __forceinline PyObject *ObjectLinkedList_order(PyObject *pySelf, PyObject *pyValue, const int op) {
     if (!PySequence_Check(pyValue)) {
         Py_RETURN_FALSE;
     }
@@ -855,132 +868,48 @@ static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
+    // user code may change the list during the comparison
+    PyObject *values = ObjectLinkedList_to_list(pySelf);
+    if (values == nullptr) {
+        return nullptr;
     }
+    const Py_ssize_t selfSize = PyList_GET_SIZE(values);
 
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < std::min(selfSize, seqSize); ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
+            SAFE_DECREF(values);
             return nullptr;
         }
 
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LT);
+        PyObject *selfItem = PyList_GET_ITEM(values, i);
+        int equal = PyObject_RichCompareBool(selfItem, item, Py_EQ);
+        PyObject *result = equal == 0 ? PyObject_RichCompare(selfItem, item, op) : nullptr;
         SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        if (equal <= 0) {
+            SAFE_DECREF(values);
+            return result;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] < item
     }
 
-    Py_RETURN_FALSE;
+    SAFE_DECREF(values);
+    Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
 }
 
-static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] <= item
-    }
+static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
+    return ObjectLinkedList_order(pySelf, pyValue, Py_LT);
+}
 
-    Py_RETURN_FALSE;
+static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
+    return ObjectLinkedList_order(pySelf, pyValue, Py_LE);
 }
 
 static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] > item
-    }
-
-    Py_RETURN_FALSE;
+    return ObjectLinkedList_order(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
-        Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] >= item
-    }
-
-    Py_RETURN_FALSE;
+    return ObjectLinkedList_order(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *ObjectLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
@@ -1023,21 +952,37 @@ static __forceinline PyObject *ObjectLinkedList_repr(PyObject *pySelf) {
         return nullptr;
     }
 
-    // generate string
-    auto iter = self->list.begin();
-    for (size_t i = 0; i < vec.size() - 1; ++i, ++iter) {
-        PyObject *itemRepr = PyObject_Repr(*iter);
+    // generate string, user code may change the list
+    PyObject *values = ObjectLinkedList_to_list(pySelf);
+    if (values == nullptr) {
+        SAFE_DECREF(reprList);
+        return nullptr;
+    }
+
+    for (Py_ssize_t i = 0; i < PyList_GET_SIZE(values); ++i) {
+        if (i > 0) {
+            PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+            if (reprList == nullptr) {
+                SAFE_DECREF(values);
+                return nullptr;
+            }
+        }
+
+        PyObject *itemRepr = PyObject_Repr(PyList_GET_ITEM(values, i));
         if (itemRepr == nullptr) {
             SAFE_DECREF(reprList);
+            SAFE_DECREF(values);
             return nullptr;
         }
 
         PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        if (reprList == nullptr) {
+            SAFE_DECREF(values);
+            return nullptr;
+        }
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec.back());
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
+    SAFE_DECREF(values);
     PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
 
     return reprList;
@@ -1105,7 +1050,7 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_iter = ObjectLinkedList_iter;
     type.tp_methods = ObjectLinkedList_methods;
     type.tp_init = (initproc) ObjectLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectLinkedList_new;
     type.tp_dealloc = (destructor) ObjectLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From b5071b8d95f88808659b725a31ee908125e7d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 21/25] fix: Unsafe silently masked sizes and addresses that do
 not fit

---
 pyfastutil/src/unsafe/Unsafe.cpp | 80 +++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 16 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 6efa0e8..8ba0a7b 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -33,6 +33,34 @@ static PyObject *Unsafe_exit([[maybe_unused]] PyObject *self,
     Py_RETURN_NONE;
 }
 
+/**
+ * Convert an integer object to a size, without dropping any bits.
+ * @return false with an exception set if it isn't an integer or doesn't fit.
+ */
+static bool Unsafe_parseSize(PyObject *object, size_t &result) {
+    PyObject *index = PyNumber_Index(object);
+    if (index == nullptr) {
+        return false;
+    }
+    result = PyLong_AsSize_t(index);
+    SAFE_DECREF(index);
+    return !PyErr_Occurred();
+}
+
+/**
+ * Convert an integer object to an address, without dropping any bits.
+ * @return false with an exception set if it isn't an integer or doesn't fit.
+ */
+static bool Unsafe_parseAddress(PyObject *object, void *&result) {
+    PyObject *index = PyNumber_Index(object);
+    if (index == nullptr) {
+        return false;
+    }
+    result = PyLong_AsVoidPtr(index);
+    SAFE_DECREF(index);
+    return !PyErr_Occurred();
+}
+
 static PyObject *Unsafe_malloc([[maybe_unused]] PyObject *self, PyObject *pySize) {
     const size_t size = PyLong_AsSize_t(pySize);
     if (PyErr_Occurred()) {
@@ -48,8 +76,13 @@ static PyObject *Unsafe_malloc([[maybe_unused]] PyObject *self, PyObject *pySize
 }
 
 static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args) {
+    PyObject *pyNum, *pySize;
+    if (!PyArg_ParseTuple(args, "OO", &pyNum, &pySize)) {
+        return nullptr;
+    }
+
     size_t num, size;
-    if (!PyArg_ParseTuple(args, "KK", &num, &size)) {
+    if (!Unsafe_parseSize(pyNum, num) || !Unsafe_parseSize(pySize, size)) {
         return nullptr;
     }
 
@@ -62,13 +95,18 @@ static PyObject *Unsafe_calloc([[maybe_unused]] PyObject *self, PyObject *args)
 }
 
 static PyObject *Unsafe_realloc([[maybe_unused]] PyObject *self, PyObject *args) {
-    uintptr_t address;
+    PyObject *pyAddress, *pyNewSize;
+    if (!PyArg_ParseTuple(args, "OO", &pyAddress, &pyNewSize)) {
+        return nullptr;
+    }
+
+    void *address;
     size_t newSize;
-    if (!PyArg_ParseTuple(args, "KK", &address, &newSize)) {
+    if (!Unsafe_parseAddress(pyAddress, address) || !Unsafe_parseSize(pyNewSize, newSize)) {
         return nullptr;
     }
 
-    void *ptr = realloc(reinterpret_cast<void *>(address), newSize);
+    void *ptr = realloc(address, newSize);
     if (ptr == nullptr) {
         PyErr_SetString(PyExc_MemoryError, "Failed to realloc memory.");
         return nullptr;
@@ -87,12 +125,14 @@ static PyObject *Unsafe_free([[maybe_unused]] PyObject *self, PyObject *pyAddres
 }
 
 static PyObject *Unsafe_alignedMalloc([[maybe_unused]] PyObject *self, PyObject *args) {
-    size_t size;
-    size_t alignment;
-    if (!PyArg_ParseTuple(args, "KK", &size, &alignment)) {
+    PyObject *pySize, *pyAlignment;
+    if (!PyArg_ParseTuple(args, "OO", &pySize, &pyAlignment)) {
         return nullptr;
     }
-    if (PyErr_Occurred()) {
+
+    size_t size;
+    size_t alignment;
+    if (!Unsafe_parseSize(pySize, size) || !Unsafe_parseSize(pyAlignment, alignment)) {
         return nullptr;
     }
 
@@ -115,21 +155,30 @@ static PyObject *Unsafe_alignedFree([[maybe_unused]] PyObject *self, PyObject *p
 }
 
 static PyObject *Unsafe_get([[maybe_unused]] PyObject *self, PyObject *args) {
-    uintptr_t address;
+    PyObject *pyAddress;
     Py_ssize_t size;
-    if (!PyArg_ParseTuple(args, "KK", &address, &size)) {
+    if (!PyArg_ParseTuple(args, "On", &pyAddress, &size)) {
         return nullptr;
     }
 
-    char *ptr = reinterpret_cast<char *>(address);
-    return PyBytes_FromStringAndSize(ptr, size);
+    void *address;
+    if (!Unsafe_parseAddress(pyAddress, address)) {
+        return nullptr;
+    }
+
+    return PyBytes_FromStringAndSize(static_cast<char *>(address), size);
 }
 
 static PyObject *Unsafe_set([[maybe_unused]] PyObject *self, PyObject *args) {
-    size_t address;
+    PyObject *pyAddress;
     PyObject *pyBytes;
 
-    if (!PyArg_ParseTuple(args, "KO", &address, &pyBytes)) {
+    if (!PyArg_ParseTuple(args, "OO", &pyAddress, &pyBytes)) {
+        return nullptr;
+    }
+
+    void *address;
+    if (!Unsafe_parseAddress(pyAddress, address)) {
         return nullptr;
     }
 
@@ -151,8 +200,7 @@ static PyObject *Unsafe_set([[maybe_unused]] PyObject *self, PyObject *args) {
     }
     const auto size = static_cast<size_t>(pySize);
 
-    char *ptr = reinterpret_cast<char *>(address);
-    memcpy(ptr, bytes, size);
+    memcpy(address, bytes, size);
 
     Py_RETURN_NONE;
 }
-- 
2.43.0


From e937b14a583c57eeb6d5425f2986e03e6254906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 22/25] fix: reversing 16-byte elements on AVX2 keeps the
 halves of each element in order

---
 pyfastutil/src/utils/include/qreverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/utils/include/qreverse.hpp b/pyfastutil/src/utils/include/qreverse.hpp
index a522d11..a30d352 100644
--- a/pyfastutil/src/utils/include/qreverse.hpp
+++ b/pyfastutil/src/utils/include/qreverse.hpp
@@ -888,8 +888,8 @@ inline void qReverse<16>(void *Array, std::size_t Count) {
                     reinterpret_cast<__m256i *>(&Array128[Count - i - 2])
             );
 
-            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(0, 1, 2, 3));
-            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(0, 1, 2, 3));
+            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(1, 0, 3, 2));
+            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(1, 0, 3, 2));
 
             // Place them at their swapped position
             _mm256_storeu_si256(
-- 
2.43.0


From dffe40faef858ce80c6600556ca4f06584cef710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 23/25] fix: AVX-512 is used only where the OS enables the ZMM
 state and the CPU has the F, DQ, BW and VL subsets

---
 pyfastutil/src/utils/simd/SIMDHelper.cpp | 49 ++++++++++++++----------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/pyfastutil/src/utils/simd/SIMDHelper.cpp b/pyfastutil/src/utils/simd/SIMDHelper.cpp
index 98960df..8951ca5 100644
--- a/pyfastutil/src/utils/simd/SIMDHelper.cpp
+++ b/pyfastutil/src/utils/simd/SIMDHelper.cpp
@@ -5,7 +5,14 @@
 #include "SIMDHelper.h"
 
 // Helper function to check OS support for AVX (via XGETBV)
-bool osSupportsAVX();
+// stateMask: the XCR0 bits that must be enabled; XMM (bit 1) and YMM (bit 2) by default
+bool osSupportsAVX(unsigned long long stateMask = 0x6);
+
+// XCR0 bits needed for AVX-512: XMM, YMM, opmask (bit 5), ZMM_Hi256 (bit 6) and Hi16_ZMM (bit 7)
+[[maybe_unused]] static constexpr unsigned long long AVX512_STATE = 0xE6;
+
+// CPUID leaf 7 EBX bits of the AVX-512 subsets in use: F (bit 16), DQ (bit 17), BW (bit 30) and VL (bit 31)
+[[maybe_unused]] static constexpr unsigned int AVX512_FEATURES = (1u << 16) | (1u << 17) | (1u << 30) | (1u << 31);
 
 // Function to check if AVX2 is supported
 bool isAVX2Supported();
@@ -28,7 +35,7 @@ bool isArmNeonSupported();
 
 #include <intrin.h>  // For __cpuid() and _xgetbv()
 
-bool osSupportsAVX() {
+bool osSupportsAVX([[maybe_unused]] unsigned long long stateMask) {
     int cpuInfo[4];
     __cpuid(cpuInfo, 1);
 
@@ -40,8 +47,8 @@ bool osSupportsAVX() {
     // Use _xgetbv to check if OS supports AVX (XMM and YMM)
     unsigned long long xcrFeatureMask = _xgetbv(0);
 
-    // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6;
+    // Check if the requested states are enabled by OS
+    return (xcrFeatureMask & stateMask) == stateMask;
 }
 
 bool isAVX2Supported() {
@@ -76,14 +83,14 @@ bool isAVX512Supported() {
         return false; // AVX or XSAVE not supported
     }
 
-    // Check OS support for AVX using XGETBV
-    if (!osSupportsAVX()) {
-        return false; // OS does not support AVX
+    // Check OS support for AVX-512 using XGETBV
+    if (!osSupportsAVX(AVX512_STATE)) {
+        return false; // OS does not support AVX-512
     }
 
-    // Now check for AVX-512 support (CPUID leaf 7, sub-leaf 0, EBX bit 16)
+    // Now check for AVX-512 support (CPUID leaf 7, sub-leaf 0, EBX bits 16, 17, 30 and 31)
     __cpuidex(cpuInfo, 7, 0); // CPUID leaf 7, sub-leaf 0
-    return (cpuInfo[1] & (1 << 16)) != 0; // Check if AVX-512 is supported (bit 16 in EBX)
+    return ((unsigned int) cpuInfo[1] & AVX512_FEATURES) == AVX512_FEATURES; // Check if the AVX-512 subsets are supported
 }
 
 bool isSSE41Supported() {
@@ -118,7 +125,7 @@ bool isArmNeonSupported() {
 
 #include <cpuid.h>  // For __get_cpuid() and __get_cpuid_count()
 
-bool osSupportsAVX() {
+bool osSupportsAVX([[maybe_unused]] unsigned long long stateMask) {
     // Ensure CPU supports XGETBV (XSAVE/XRSTOR)
     unsigned int cpuid_eax, cpuid_ebx, cpuid_ecx, cpuid_edx;
     __get_cpuid(1, &cpuid_eax, &cpuid_ebx, &cpuid_ecx, &cpuid_edx);
@@ -132,8 +139,8 @@ bool osSupportsAVX() {
 #elif defined(__GNUC__) && (__GNUC__ >= 8)
     // GCC 8+ has __builtin_ia32_xgetbv()
     unsigned long long xcrFeatureMask = __builtin_ia32_xgetbv(0);
-    // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6; // Both XMM and YMM must be enabled
+    // Check if the requested states are enabled by OS
+    return (xcrFeatureMask & stateMask) == stateMask;
 #else
     __asm__ __volatile__(
             "xgetbv"
@@ -141,8 +148,8 @@ bool osSupportsAVX() {
             : "c"(0)
         );
     unsigned long long xcrFeatureMask = ((unsigned long long)edx << 32) | eax;
-    // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6; // Both XMM and YMM must be enabled
+    // Check if the requested states are enabled by OS
+    return (xcrFeatureMask & stateMask) == stateMask;
 #endif
 }
 
@@ -187,17 +194,17 @@ bool isAVX512Supported() {
         return false; // AVX or XSAVE not supported
     }
 
-    // Check OS support for AVX using XGETBV
-    if (!osSupportsAVX()) {
-        return false; // OS does not support AVX
+    // Check OS support for AVX-512 using XGETBV
+    if (!osSupportsAVX(AVX512_STATE)) {
+        return false; // OS does not support AVX-512
     }
 
-    // Now check for AVX-512 support (CPUID leaf 7, sub-leaf 0, EBX bit 16)
+    // Now check for AVX-512 support (CPUID leaf 7, sub-leaf 0, EBX bits 16, 17, 30 and 31)
     if (!__get_cpuid_count(7, 0, &eax, &ebx, &ecx, &edx)) {
         return false;
     }
 
-    return (ebx & (1 << 16)) != 0; // Check if AVX-512 is supported
+    return (ebx & AVX512_FEATURES) == AVX512_FEATURES; // Check if the AVX-512 subsets are supported
 }
 
 bool isSSE41Supported() {
@@ -228,7 +235,7 @@ bool isArmNeonSupported() {
 
 #else
 // For unknown compiler, SIMD support is unknown, default is unsupported.
-bool osSupportsAVX() {
+bool osSupportsAVX([[maybe_unused]] unsigned long long stateMask) {
     return false;
 }
 
@@ -260,7 +267,7 @@ bool isArmNeonSupported() {
 #include <string>
 
 // For non-x86 architectures, AVX/SSE is not supported
-bool osSupportsAVX() {
+bool osSupportsAVX([[maybe_unused]] unsigned long long stateMask) {
     return false;
 }
 
-- 
2.43.0


From 876a1bcbc9261a80888e4864e66f5e2e9480afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 24/25] fix: the raw AVX-512 interface converts float, short
 and char arguments

---
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp | 68 ++++++++++++-------------
 pyfastutil/src/utils/PythonUtils.h      | 18 +------
 scripts/GenerateAVX512Bindings.py       |  4 +-
 scripts/SIMDLowAVX512.cpp               | 68 ++++++++++++-------------
 4 files changed, 72 insertions(+), 86 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ecbc2a6..6b7b726 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -239,14 +239,14 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_pd_impl([[maybe_unused]]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    double arg5 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    double arg6 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    double arg7 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    double arg8 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    double arg5 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    double arg6 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    double arg7 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    double arg8 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 8));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4, (double) arg5, (double) arg6, (double) arg7, (double) arg8);
 
@@ -264,22 +264,22 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_ps_impl([[maybe_unused]]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    float arg5 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    float arg6 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    float arg7 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    float arg8 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
-    float arg9 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 9));
-    float arg10 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 10));
-    float arg11 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 11));
-    float arg12 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 12));
-    float arg13 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 13));
-    float arg14 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 14));
-    float arg15 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 15));
-    float arg16 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 16));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    float arg5 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    float arg6 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    float arg7 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    float arg8 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 8));
+    float arg9 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 9));
+    float arg10 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 10));
+    float arg11 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 11));
+    float arg12 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 12));
+    float arg13 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 13));
+    float arg14 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 14));
+    float arg15 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 15));
+    float arg16 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 16));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4, (float) arg5, (float) arg6, (float) arg7, (float) arg8, (float) arg9, (float) arg10, (float) arg11, (float) arg12, (float) arg13, (float) arg14, (float) arg15, (float) arg16);
 
@@ -384,7 +384,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set1_pd((double) arg1);
 
@@ -402,7 +402,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set1_ps((float) arg1);
 
@@ -451,10 +451,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set4_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4);
 
@@ -472,10 +472,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set4_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4);
 
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 728f709..01d292f 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -177,25 +177,11 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
 }
 
 static __forceinline short PyFast_AsShort(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (short) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (short) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+    return (short) PyLong_AsLong((PyObject *) obj);
 }
 
 static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (char) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (char) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+    return (char) PyLong_AsLong((PyObject *) obj);
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
diff --git a/scripts/GenerateAVX512Bindings.py b/scripts/GenerateAVX512Bindings.py
index 47d4869..0ec1ec5 100644
--- a/scripts/GenerateAVX512Bindings.py
+++ b/scripts/GenerateAVX512Bindings.py
@@ -506,9 +506,9 @@ def getArgParseData(argType: str, argId: int) -> tuple[str, bool]:
         case "unsigned":
             convert = f"(unsigned int) PyLong_AsUnsignedLong(*(((PyObject **) args) + {argId}))"
         case "float":
-            convert = f"(float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + {argId}))"
+            convert = f"(float) PyFloat_AsDouble(*(((PyObject **) args) + {argId}))"
         case "double":
-            convert = f"PyFloat_AS_DOUBLE(*(((PyObject **) args) + {argId}))"
+            convert = f"PyFloat_AsDouble(*(((PyObject **) args) + {argId}))"
         case "long":
             convert = f"PyLong_AsLong(*(((PyObject **) args) + {argId}))"
         case "long long":
diff --git a/scripts/SIMDLowAVX512.cpp b/scripts/SIMDLowAVX512.cpp
index ecbc2a6..6b7b726 100644
--- a/scripts/SIMDLowAVX512.cpp
+++ b/scripts/SIMDLowAVX512.cpp
@@ -239,14 +239,14 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_pd_impl([[maybe_unused]]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    double arg5 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    double arg6 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    double arg7 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    double arg8 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    double arg5 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    double arg6 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    double arg7 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    double arg8 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 8));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4, (double) arg5, (double) arg6, (double) arg7, (double) arg8);
 
@@ -264,22 +264,22 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_ps_impl([[maybe_unused]]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    float arg5 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    float arg6 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    float arg7 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    float arg8 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
-    float arg9 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 9));
-    float arg10 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 10));
-    float arg11 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 11));
-    float arg12 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 12));
-    float arg13 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 13));
-    float arg14 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 14));
-    float arg15 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 15));
-    float arg16 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 16));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    float arg5 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    float arg6 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    float arg7 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    float arg8 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 8));
+    float arg9 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 9));
+    float arg10 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 10));
+    float arg11 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 11));
+    float arg12 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 12));
+    float arg13 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 13));
+    float arg14 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 14));
+    float arg15 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 15));
+    float arg16 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 16));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4, (float) arg5, (float) arg6, (float) arg7, (float) arg8, (float) arg9, (float) arg10, (float) arg11, (float) arg12, (float) arg13, (float) arg14, (float) arg15, (float) arg16);
 
@@ -384,7 +384,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set1_pd((double) arg1);
 
@@ -402,7 +402,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set1_ps((float) arg1);
 
@@ -451,10 +451,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set4_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4);
 
@@ -472,10 +472,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set4_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4);
 
-- 
2.43.0


From 59699b17625b064f0bde6ff4a381d2e8b36bd8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 25/25] fix: the AVX-512 stub declares float parameters as
 float

---
 pyfastutil/unsafe/SIMDLowAVX512.pyi | 12 ++++++------
 scripts/GenerateAVX512Bindings.py   |  4 ++--
 scripts/SIMDLowAVX512.pyi           | 12 ++++++------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pyfastutil/unsafe/SIMDLowAVX512.pyi b/pyfastutil/unsafe/SIMDLowAVX512.pyi
index 68508d9..fd4fd8b 100644
--- a/pyfastutil/unsafe/SIMDLowAVX512.pyi
+++ b/pyfastutil/unsafe/SIMDLowAVX512.pyi
@@ -138,7 +138,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set_pd(self, __result: Ptr, __A: int, __B: int, __C: int, __D: int, __E: int, __F: int, __G: int, __H: int) -> None:
+    def mm512_set_pd(self, __result: Ptr, __A: float, __B: float, __C: float, __D: float, __E: float, __F: float, __G: float, __H: float) -> None:
         """
         Executes the _mm512_set_pd operation.
 
@@ -150,7 +150,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set_ps(self, __result: Ptr, __A: int, __B: int, __C: int, __D: int, __E: int, __F: int, __G: int, __H: int, __I: int, __J: int, __K: int, __L: int, __M: int, __N: int, __O: int, __P: int) -> None:
+    def mm512_set_ps(self, __result: Ptr, __A: float, __B: float, __C: float, __D: float, __E: float, __F: float, __G: float, __H: float, __I: float, __J: float, __K: float, __L: float, __M: float, __N: float, __O: float, __P: float) -> None:
         """
         Executes the _mm512_set_ps operation.
 
@@ -222,7 +222,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set1_pd(self, __result: Ptr, __A: int) -> None:
+    def mm512_set1_pd(self, __result: Ptr, __A: float) -> None:
         """
         Executes the _mm512_set1_pd operation.
 
@@ -234,7 +234,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set1_ps(self, __result: Ptr, __A: int) -> None:
+    def mm512_set1_ps(self, __result: Ptr, __A: float) -> None:
         """
         Executes the _mm512_set1_ps operation.
 
@@ -272,7 +272,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set4_pd(self, __result: Ptr, __A: int, __B: int, __C: int, __D: int) -> None:
+    def mm512_set4_pd(self, __result: Ptr, __A: float, __B: float, __C: float, __D: float) -> None:
         """
         Executes the _mm512_set4_pd operation.
 
@@ -284,7 +284,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set4_ps(self, __result: Ptr, __A: int, __B: int, __C: int, __D: int) -> None:
+    def mm512_set4_ps(self, __result: Ptr, __A: float, __B: float, __C: float, __D: float) -> None:
         """
         Executes the _mm512_set4_ps operation.
 
diff --git a/scripts/GenerateAVX512Bindings.py b/scripts/GenerateAVX512Bindings.py
index 0ec1ec5..45ad405 100644
--- a/scripts/GenerateAVX512Bindings.py
+++ b/scripts/GenerateAVX512Bindings.py
@@ -584,9 +584,9 @@ def getPyiType(cType: str) -> str:
         case "unsigned":
             return "int"
         case "float":
-            return "int"
+            return "float"
         case "double":
-            return "int"
+            return "float"
         case "long":
             return "int"
         case "long long":
diff --git a/scripts/SIMDLowAVX512.pyi b/scripts/SIMDLowAVX512.pyi
index 68508d9..fd4fd8b 100644
--- a/scripts/SIMDLowAVX512.pyi
+++ b/scripts/SIMDLowAVX512.pyi
@@ -138,7 +138,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set_pd(self, __result: Ptr, __A: int, __B: int, __C: int, __D: int, __E: int, __F: int, __G: int, __H: int) -> None:
+    def mm512_set_pd(self, __result: Ptr, __A: float, __B: float, __C: float, __D: float, __E: float, __F: float, __G: float, __H: float) -> None:
         """
         Executes the _mm512_set_pd operation.
 
@@ -150,7 +150,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set_ps(self, __result: Ptr, __A: int, __B: int, __C: int, __D: int, __E: int, __F: int, __G: int, __H: int, __I: int, __J: int, __K: int, __L: int, __M: int, __N: int, __O: int, __P: int) -> None:
+    def mm512_set_ps(self, __result: Ptr, __A: float, __B: float, __C: float, __D: float, __E: float, __F: float, __G: float, __H: float, __I: float, __J: float, __K: float, __L: float, __M: float, __N: float, __O: float, __P: float) -> None:
         """
         Executes the _mm512_set_ps operation.
 
@@ -222,7 +222,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set1_pd(self, __result: Ptr, __A: int) -> None:
+    def mm512_set1_pd(self, __result: Ptr, __A: float) -> None:
         """
         Executes the _mm512_set1_pd operation.
 
@@ -234,7 +234,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set1_ps(self, __result: Ptr, __A: int) -> None:
+    def mm512_set1_ps(self, __result: Ptr, __A: float) -> None:
         """
         Executes the _mm512_set1_ps operation.
 
@@ -272,7 +272,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set4_pd(self, __result: Ptr, __A: int, __B: int, __C: int, __D: int) -> None:
+    def mm512_set4_pd(self, __result: Ptr, __A: float, __B: float, __C: float, __D: float) -> None:
         """
         Executes the _mm512_set4_pd operation.
 
@@ -284,7 +284,7 @@ class SIMDLowAVX512:
         method prototype.
         """
         pass
-    def mm512_set4_ps(self, __result: Ptr, __A: int, __B: int, __C: int, __D: int) -> None:
+    def mm512_set4_ps(self, __result: Ptr, __A: float, __B: float, __C: float, __D: float) -> None:
         """
         Executes the _mm512_set4_ps operation.
 
-- 
2.43.0

