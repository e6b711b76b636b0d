From 0829ba7c747a39a8f0e8c127e1a205e7f9ecfef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 001/136] fix: copy() of a complex array threw 'Unknown type'

---
 lube/heap.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index cd160cf..805dea6 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, July 2013
  */
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 #include <stdexcept>
@@ -297,6 +298,12 @@ void Heap::copy(const Heap* iHeap, int iSize)
     case TYPE_DOUBLE:
         memcpy(mData.dp, iHeap->mData.dp, mSize*sizeof(double));
         break;
+    case TYPE_CFLOAT:
+        std::copy_n(iHeap->mData.cfp, mSize, mData.cfp);
+        break;
+    case TYPE_CDOUBLE:
+        std::copy_n(iHeap->mData.cdp, mSize, mData.cdp);
+        break;
     case TYPE_VAR:
         for (int i=0; i<mSize; i++)
             mData.vp[i] = iHeap->mData.vp[i];
-- 
2.43.0


From 25cd73706569f640d11548c6ce4b71087d763673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 002/136] fix: comparing an undefined var dereferenced a null
 pointer

---
 lube/var.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0d0764c..ce35c19 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -514,6 +514,9 @@ bool var::operator !=(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // Either could be nil, meaning there's no heap
+        if (!heap() || !iVar.heap())
+            return heap() != iVar.heap();
         return heap()->neq(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() != iVar.get<char>());
@@ -551,6 +554,9 @@ bool var::operator <(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // Either could be nil, meaning there's no heap; nil sorts first
+        if (!heap() || !iVar.heap())
+            return !heap() && iVar.heap();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() < iVar.get<char>());
-- 
2.43.0


From dbdae54679e00a795c4e3c81cbc55e63941af9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 003/136] fix: operator < on arrays was not an ordering

---
 lube/heap.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 805dea6..376694f 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -463,12 +463,24 @@ bool Heap::neq(IHeap* iHeap)
 
 bool Heap::lt(IHeap* iHeap)
 {
-    if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
-        return (std::strcmp(ptrchar(), iHeap->ptrchar()) < 0);
-    for (int i=0; i<std::min(size(), iHeap->size()); i++)
-        if (at(i) < iHeap->at(i))
+    // Lexicographical, as for a string: the first difference decides, and a
+    // prefix is less than anything it's a prefix of.
+    int n = std::min(size(), iHeap->size());
+    if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
+    {
+        int c = std::memcmp(ptrchar(), iHeap->ptrchar(), n);
+        return c ? (c < 0) : (size() < iHeap->size());
+    }
+    for (int i=0; i<n; i++)
+    {
+        var x = at(i);
+        var y = iHeap->at(i);
+        if (x < y)
             return true;
-    return false;
+        if (y < x)
+            return false;
+    }
+    return size() < iHeap->size();
 }
 
 
-- 
2.43.0


From 9601134181e3f7efdce820652a7db0ae3b2baf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 004/136] fix: maps with different keys but the same values
 compared equal

---
 lube/heap.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 376694f..ad258ee 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -454,8 +454,13 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
-    for (int i=0; i<mSize; i++)
-        if (at(i) != iHeap->at(i))
+    // Maps are equal only if they have the same keys too
+    bool pairs = (type() == TYPE_PAIR);
+    if (pairs != (iHeap->type() == TYPE_PAIR))
+        return true;
+    for (int i=0; i<size(); i++)
+        if ( (pairs && (at(i, true) != iHeap->at(i, true))) ||
+             (at(i) != iHeap->at(i)) )
             return true;
     return false;
 }
@@ -471,15 +476,20 @@ bool Heap::lt(IHeap* iHeap)
         int c = std::memcmp(ptrchar(), iHeap->ptrchar(), n);
         return c ? (c < 0) : (size() < iHeap->size());
     }
+    bool pairs = (type() == TYPE_PAIR);
+    if (pairs != (iHeap->type() == TYPE_PAIR))
+        return !pairs;
     for (int i=0; i<n; i++)
-    {
-        var x = at(i);
-        var y = iHeap->at(i);
-        if (x < y)
-            return true;
-        if (y < x)
-            return false;
-    }
+        for (int k=pairs; k>=0; k--)
+        {
+            // Key then value for a map, otherwise just the value
+            var x = at(i, k);
+            var y = iHeap->at(i, k);
+            if (x < y)
+                return true;
+            if (y < x)
+                return false;
+        }
     return size() < iHeap->size();
 }
 
-- 
2.43.0


From 75be85e724683819f551d1e929a2a2077e2c622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 005/136] fix: comparison of views compared their offsets and
 strides, not their data

---
 lube/heap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/heap.h b/lube/heap.h
index 7ecfd02..b107fb2 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -224,6 +224,9 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual var at(int iIndex, bool iKey=false) const {
+            return mHeap->at(iIndex + mData.ip[0], iKey);
+        };
         virtual int derefSize(ind iIndex) {
             return mHeap->derefSize(iIndex + mData.ip[0]);
         };
-- 
2.43.0


From db6ebfd8e7d20a66ce4bbe80ad0f3b729c69a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 006/136] fix: comparing cdouble recursed for ever, and complex
 keys could be lost in a map

---
 lube/heap.cpp | 17 +++++++++++++++++
 lube/heap.h   | 15 +++++++++++++++
 lube/var.cpp  | 20 +++++++++++++++-----
 3 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index ad258ee..92c00dd 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -458,6 +458,13 @@ bool Heap::neq(IHeap* iHeap)
     bool pairs = (type() == TYPE_PAIR);
     if (pairs != (iHeap->type() == TYPE_PAIR))
         return true;
+    if ( (type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE) )
+    {
+        // at() yields another array, so has to be done here
+        return !std::equal(
+            ptrcdouble(), ptrcdouble() + size(), iHeap->ptrcdouble()
+        );
+    }
     for (int i=0; i<size(); i++)
         if ( (pairs && (at(i, true) != iHeap->at(i, true))) ||
              (at(i) != iHeap->at(i)) )
@@ -468,6 +475,16 @@ bool Heap::neq(IHeap* iHeap)
 
 bool Heap::lt(IHeap* iHeap)
 {
+    if ( (type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE) )
+    {
+        // at() yields another array, so has to be done here
+        cdouble* x = ptrcdouble();
+        cdouble* y = iHeap->ptrcdouble();
+        return std::lexicographical_compare(
+            x, x + size(), y, y + iHeap->size(), complexLess<double>
+        );
+    }
+
     // Lexicographical, as for a string: the first difference decides, and a
     // prefix is less than anything it's a prefix of.
     int n = std::min(size(), iHeap->size());
diff --git a/lube/heap.h b/lube/heap.h
index b107fb2..48be2c5 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -24,6 +24,21 @@ namespace libube
 
     class Heap;
 
+    /**
+     * Orders complex numbers by magnitude.  Different values with the same
+     * magnitude still need an order, otherwise they can't both be keys of a
+     * map.
+     */
+    template<class T>
+    bool complexLess(const std::complex<T>& iA, const std::complex<T>& iB)
+    {
+        if (std::abs(iA) != std::abs(iB))
+            return std::abs(iA) < std::abs(iB);
+        if (iA.real() != iB.real())
+            return iA.real() < iB.real();
+        return iA.imag() < iB.imag();
+    }
+
     /**
      * Heap interface
      */
diff --git a/lube/var.cpp b/lube/var.cpp
index ce35c19..e3055dc 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -507,6 +507,13 @@ var& var::varderef()
  */
 bool var::operator !=(var iVar) const
 {
+    if ( (type() == TYPE_CDOUBLE) || (iVar.type() == TYPE_CDOUBLE) )
+    {
+        // It's a reference into an array; a cdouble in its own right is always
+        // an array
+        var v(*this);
+        return v.dereference() != iVar.dereference();
+    }
     if (type() != iVar.type())
         return true;
     if (size() != iVar.size())
@@ -530,8 +537,6 @@ bool var::operator !=(var iVar) const
         return (get<double>() != iVar.get<double>());
     case TYPE_CFLOAT:
         return (get<cfloat>() != iVar.get<cfloat>());
-    case TYPE_CDOUBLE:
-        return (get<cdouble>() != iVar.get<cdouble>());
     default:
         throw error("operator !=(): Unknown type");
     }
@@ -548,6 +553,13 @@ bool var::operator !=(var iVar) const
  */
 bool var::operator <(var iVar) const
 {
+    if ( (type() == TYPE_CDOUBLE) || (iVar.type() == TYPE_CDOUBLE) )
+    {
+        // It's a reference into an array; a cdouble in its own right is always
+        // an array
+        var v(*this);
+        return v.dereference() < iVar.dereference();
+    }
     if (type() != iVar.type())
         return (type() < iVar.type());
 
@@ -569,9 +581,7 @@ bool var::operator <(var iVar) const
     case TYPE_DOUBLE:
         return (get<double>() < iVar.get<double>());
     case TYPE_CFLOAT:
-        return (std::abs(get<cfloat>()) < std::abs(iVar.get<cfloat>()));
-    case TYPE_CDOUBLE:
-        return (std::abs(get<cdouble>()) < std::abs(iVar.get<cdouble>()));
+        return complexLess(get<cfloat>(), iVar.get<cfloat>());
     default:
         throw error("operator <(): Unknown type");
     }
-- 
2.43.0


From 3654950b961a172f07a48f93a66b728cab92822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 007/136] fix: at() did not check bounds; pop() and top() of an
 empty array corrupted it

---
 lube/var.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index e3055dc..3f3d657 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -828,7 +828,11 @@ var var::at(int iIndex) const
     if (!v)
         throw error("var::at(): uninitialised");
     if (v.type() == TYPE_ARRAY)
+    {
+        if ( (iIndex < 0) || (iIndex >= v.size()) )
+            throw error("var::at(): Index out of bounds");
         return v.reference(iIndex);
+    }
     if (iIndex == 0)
         return v;
     throw error("var::at(): Index out of bounds");
-- 
2.43.0


From b76f491f10ebc733f873e025a7ccdcaeb4252573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 008/136] fix: pop() and remove() returned a reference to a
 dead or overwritten element

---
 lube/var.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3f3d657..3b19ed3 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1111,7 +1111,9 @@ var& var::push(var iVar)
 
 var var::pop()
 {
+    // The result must be a value; a reference would be to a dead element
     var r = at(size()-1);
+    r.dereference();
     resize(size()-1);
     return r;
 }
@@ -1166,7 +1168,9 @@ var var::remove(int iIndex)
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
 
+    // The result must be a value; a reference would be to the next element
     var r = at(iIndex).copy();
+    r.dereference();
     for (int i=iIndex+1; i<size(); i++)
         at(i-1) = at(i);
     resize(size()-1);
-- 
2.43.0


From 6b344d767a0fd541a028bee639bdb4b0a5a1b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 009/136] fix: remove() from a map moved the values but not the
 keys

---
 lube/var.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3b19ed3..1711b6d 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1171,8 +1171,13 @@ var var::remove(int iIndex)
     // The result must be a value; a reference would be to the next element
     var r = at(iIndex).copy();
     r.dereference();
+    bool pairs = heap() && atype<pair>();
     for (int i=iIndex+1; i<size(); i++)
+    {
+        if (pairs)
+            heap()->key(i-1) = heap()->key(i);
         at(i-1) = at(i);
+    }
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From 502ddf135a6819908f5350f708990a8881827b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 010/136] fix: elements dropped by resize() or pop() were
 retained, and reappeared on growth

---
 lube/heap.cpp | 8 ++++++++
 lube/var.cpp  | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 92c00dd..c37bdab 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -227,6 +227,14 @@ void Heap::resize(int iSize)
 {
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
+
+    // Let go of anything that is dropped, otherwise it will reappear if the
+    // array grows again
+    for (int i=iSize; i<mSize; i++)
+        if (mType == TYPE_VAR)
+            mData.vp[i] = nil;
+        else if (mType == TYPE_PAIR)
+            mData.pp[i] = pair();
     mSize = iSize;
 
     // strings have an extra '\0'
diff --git a/lube/var.cpp b/lube/var.cpp
index 1711b6d..3545b29 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1257,6 +1257,8 @@ var& var::presize(int iSize)
 {
     // There is no doubt a more efficient way
     int s = size();
+    if (iSize < s)
+        return *this;
     resize(iSize);
     resize(s);
     return *this;
-- 
2.43.0


From 62fb76525057b979a4ac3ec8569b6e1d0519bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 011/136] fix: shift() of an empty array wrote out of bounds

---
 lube/heap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index c37bdab..c9b8514 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -531,6 +531,8 @@ var Heap::shift()
     // it) and placement new on the exposed one (to reset it, rather than
     // actually construct a new one).
     var r;
+    if (mSize == 0)
+        throw std::range_error("Heap::shift(): empty array");
     switch (mType)
     {
     case TYPE_CHAR:
-- 
2.43.0


From bc68d0865b44f13fe5cda420060a028f1d23fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 012/136] fix: pop() and shift() of a single value did not
 remove it

---
 lube/var.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3545b29..2af2b49 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1114,7 +1114,11 @@ var var::pop()
     // The result must be a value; a reference would be to a dead element
     var r = at(size()-1);
     r.dereference();
-    resize(size()-1);
+    if (!heap())
+        // It was a single value
+        clear();
+    else
+        resize(size()-1);
     return r;
 }
 
@@ -1187,8 +1191,12 @@ var var::shift()
 {
     if (heap())
         return heap()->shift();
-    else
-        return *this;
+
+    // It was a single value
+    var r = at(0);
+    r.dereference();
+    clear();
+    return r;
 }
 
 
-- 
2.43.0


From 2aea998a44861453de1d0f12cb09ae272d7afd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 013/136] fix: resizing a view (push, insert, shift, ...)
 corrupted it

---
 lube/heap.h   | 9 +++++++++
 lube/view.cpp | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lube/heap.h b/lube/heap.h
index 48be2c5..545d377 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -239,6 +239,15 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual void resize(int iSize) {
+            throw error("View::resize(): cannot resize a view");
+        };
+        virtual var shift() {
+            throw error("View::shift(): cannot resize a view");
+        };
+        virtual void unshift(var iVar) {
+            throw error("View::unshift(): cannot resize a view");
+        };
         virtual var at(int iIndex, bool iKey=false) const {
             return mHeap->at(iIndex + mData.ip[0], iKey);
         };
diff --git a/lube/view.cpp b/lube/view.cpp
index 551b9f8..5b8e97d 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -27,7 +27,7 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     assert(iHeap.view());
     mType = TYPE_INT;
-    resize(iHeap.dim()*2+1);
+    Heap::resize(iHeap.dim()*2+1);
     mHeap = new Heap(*iHeap.view(), iAllocOnly);
     mHeap->attach();
     copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
@@ -42,7 +42,7 @@ View::View(IHeap* iHeap) : Heap()
 
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
-    resize(1);
+    Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
 }
 
@@ -71,7 +71,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     : View(iHeap)
 {
     int dim = iList.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -93,7 +93,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
 View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
 {
     int dim = iShape.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
-- 
2.43.0


From 1e84c7c31e7fc8cebf8064f2c91a2774376ec2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 014/136] fix: elements of a view of an array of var were
 looked up in the view's own data

---
 lube/heap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/heap.h b/lube/heap.h
index 545d377..d1bf28b 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -251,6 +251,12 @@ namespace libube
         virtual var at(int iIndex, bool iKey=false) const {
             return mHeap->at(iIndex + mData.ip[0], iKey);
         };
+        virtual var& key(int iIndex) {
+            return mHeap->key(iIndex + mData.ip[0]);
+        };
+        virtual var* deref(ind iIndex) {
+            return mHeap->deref(iIndex + mData.ip[0]);
+        };
         virtual int derefSize(ind iIndex) {
             return mHeap->derefSize(iIndex + mData.ip[0]);
         };
-- 
2.43.0


From 563455af5fc66d707bfbb2951730deaf96a48687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 015/136] fix: views with a negative offset or dimension were
 allowed

---
 lube/view.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/view.cpp b/lube/view.cpp
index 5b8e97d..0c07ef3 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -57,9 +57,13 @@ void View::setStrides(int iDim)
     int p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
+        if (mData.ip[i*2+1] < 0)
+            throw error("View::setStrides(): negative dimension");
         mData.ip[i*2+2] = p;
         p *= mData.ip[i*2+1];
     }
+    if (mData.ip[0] < 0)
+        throw error("View::setStrides(): negative offset");
 
     // the p that drops out should be the overall size
     if (p+mData.ip[0] > mHeap->size())
@@ -119,6 +123,8 @@ View::~View()
 
 int View::offset(int iOffset)
 {
+    if (iOffset < 0)
+        throw error("View::offset(): negative offset");
     if (iOffset + size() > mHeap->size())
         throw error("View::offset(): offset too large");
     mData.ip[0] = iOffset;
-- 
2.43.0


From 8e88dec527f619135b12426cd112df608df9d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 016/136] fix: view() with a cdouble value allocated on top of
 that value, so views aliased

---
 lube/var.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 2af2b49..492e789 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1424,7 +1424,8 @@ var libube::view(const std::initializer_list<int> iShape, var iType)
     int s = 1;
     for (const int* it=begin(iShape); it!=end(iShape); ++it)
         s *= *it;
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : 0.0f;
+    v.dereference();
     v.array();
     v.resize(s);
     return v.view(iShape);
@@ -1440,7 +1441,8 @@ var libube::view(var iShape, var iType)
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
         s *= iShape[i].cast<int>();
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : 0.0f;
+    v.dereference();
     v.array();
     v.resize(s);
     return v.view(iShape);
-- 
2.43.0


From 355eab5429c1e04a7be041bfdf67741385cc9646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 017/136] fix: an array leaked if its constructor threw, e.g.,
 for an invalid view

---
 lube/heap.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index c9b8514..7f7d138 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -53,12 +53,13 @@ Heap::Heap()
  * Destructor
  *
  * The dtor should be called when the reference count hits zero.  So
- * the refcount should already be zero here.  The memory will have
- * been freed by the dealloc().
+ * the refcount should already be zero here.  It is also called if a
+ * constructor throws, so it's the right place to free the memory.
  */
 Heap::~Heap()
 {
     assert(!mRefCount);
+    dealloc(mData);
 }
 
 
@@ -216,10 +217,7 @@ int Heap::detach()
     assert(mRefCount > 0);
     int count = --mRefCount;
     if (count == 0)
-    {
-        dealloc(mData);
         delete this;
-    }
     return count;
 }
 
-- 
2.43.0


From a86e45cf70a9573aaafc0237490609aa2e3cfd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 018/136] fix: casts lost imaginary parts, and gave garbage for
 arrays and cdouble

---
 lube/var.cpp | 77 ++++++++++++++++++++++++++++++++++++++++++++--------
 lube/var.h   |  7 ++++-
 2 files changed, 71 insertions(+), 13 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 492e789..4c345b7 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -126,26 +126,36 @@ namespace libube
     }
 
 
+    /**
+     * The result of a cast<>(), which has to be a single value.
+     */
+    template<class T> static T single(var iVar)
+    {
+        if (iVar.size() != 1)
+            throw error("var::cast(): Not a single value");
+        return iVar.at(0).get<T>();
+    }
+
     template<> char var::cast<char>() const {
-        return castChar(*this).get<char>();
+        return single<char>(castChar(*this));
     }
     template<> int var::cast<int>() const {
-        return castInt(*this).get<int>();
+        return single<int>(castInt(*this));
     }
     template<> long var::cast<long>() const {
-        return castLong(*this).get<long>();
+        return single<long>(castLong(*this));
     }
     template<> float var::cast<float>() const {
-        return castFloat(*this).get<float>();
+        return single<float>(castFloat(*this));
     }
     template<> double var::cast<double>() const {
-        return castDouble(*this).get<double>();
+        return single<double>(castDouble(*this));
     }
     template<> cfloat var::cast<cfloat>() const {
-        return castCFloat(*this).get<cfloat>();
+        return single<cfloat>(castCFloat(*this));
     }
     template<> cdouble var::cast<cdouble>() const {
-        return castCDouble(*this).get<cdouble>();
+        return single<cdouble>(castCDouble(*this));
     }
 }
 
@@ -659,16 +669,59 @@ ind var::atype() const
 }
 
 
+/**
+ * Casts a complex value.  The imaginary part is only lost if the result cannot
+ * represent it.
+ */
+template <class T> struct CastComplex
+{
+    template <class C> static T cast(C iData) {
+        return static_cast<T>(iData.real());
+    };
+};
+
+template <class R> struct CastComplex< std::complex<R> >
+{
+    template <class C> static std::complex<R> cast(C iData) {
+        return std::complex<R>(iData.real(), iData.imag());
+    };
+};
+
+
+/**
+ * Allocates an array of the type being cast to, rather than that of the input.
+ * An array of var can hold anything, so it's still an array of var.
+ */
+template <class T>
+var Cast<T>::alloc(var iVar) const
+{
+    if (!iVar.heap() || iVar.atype<char>() ||
+        iVar.atype<var>() || iVar.atype<pair>())
+        return UnaryFunctor::alloc(iVar);
+    var r = T(0);
+    if (iVar.view())
+        return libube::view(iVar.shape(), r);
+    r.array();
+    r.resize(iVar.size());
+    return r;
+}
+
+
 template <class T>
 void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
+    // A single cdouble is always an array
+    ind type = iVar.type();
+    if (iVar.heap() && iVar.atype<cdouble>() && (iVar.size() == 1))
+        type = TYPE_CDOUBLE;
+
     // Return immediately if no cast is required
     const T t = 0;
     static var v = t;
-    if (v.type() == iVar.type())
+    if (v.atype() == type)
     {
         if (!iVar.is(oVar))
-            oVar = iVar;
+            oVar = iVar.copy();
         return;
     }
 
@@ -684,7 +737,7 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
     }
 
     // Everything else gets cast<>ed
-    switch (iVar.type())
+    switch (type)
     {
     case TYPE_ARRAY:
         broadcast(iVar, oVar);
@@ -705,10 +758,10 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
         oVar = static_cast<T>(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        oVar = static_cast<T>(iVar.get<cfloat>().real());
+        oVar = CastComplex<T>::cast(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        oVar = static_cast<T>(iVar.get<cdouble>().real());
+        oVar = CastComplex<T>::cast(iVar.get<cdouble>());
         break;
     default:
         throw error("Cast::operator(): Unknown type");
diff --git a/lube/var.h b/lube/var.h
index 5b32b29..064a84d 100644
--- a/lube/var.h
+++ b/lube/var.h
@@ -46,7 +46,12 @@ namespace libube
 
     // Casting functors
     template <class T>
-    BASIC_UNARY_FUNCTOR_DECL(Cast)
+    class Cast : public UnaryFunctor
+    {
+    protected:
+        var alloc(var iVar) const;
+        void scalar(const var& iVar, var& oVar) const;
+    };
     extern Cast<char> castChar;
     extern Cast<int> castInt;
     extern Cast<long> castLong;
-- 
2.43.0


From 22bed2f4a04e6a59651cfd88c18f70df32373c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 019/136] fix: unshift() of a different type stored garbage

---
 lube/heap.cpp | 44 ++++++++++++++++++++++++++++++++++----------
 lube/heap.h   |  1 +
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 7f7d138..3bebf82 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -583,49 +583,73 @@ var Heap::shift()
 }
 
 
+/**
+ * Cast a value to the type of the array, so that it can be added to it.
+ */
+var Heap::element(var iVar) const
+{
+    // It may refer to an element that is about to move
+    iVar.dereference();
+    switch (mType)
+    {
+    case TYPE_CHAR: return iVar.cast<char>();
+    case TYPE_INT: return iVar.cast<int>();
+    case TYPE_LONG: return iVar.cast<long>();
+    case TYPE_FLOAT: return iVar.cast<float>();
+    case TYPE_DOUBLE: return iVar.cast<double>();
+    case TYPE_CFLOAT: return iVar.cast<cfloat>();
+    case TYPE_CDOUBLE: return iVar.cast<cdouble>();
+    }
+    return iVar;
+}
+
+
 /**
  * Shift the array contents up (forwards).
  */
 void Heap::unshift(var iVar)
 {
+    if (mType == TYPE_PAIR)
+        throw error("Heap::unshift(): Can't unshift a pair");
+
+    // Cast first, as that might throw
+    var v = element(iVar);
     resize(mSize+1);
     switch (mType)
     {
     case TYPE_CHAR:
         memmove(mData.cp+1, mData.cp, (mSize-1)*sizeof(char));
-        mData.cp[0] = iVar.get<char>();
+        mData.cp[0] = v.get<char>();
         break;
     case TYPE_INT:
         memmove(mData.ip+1, mData.ip, (mSize-1)*sizeof(int));
-        mData.ip[0] = iVar.get<int>();
+        mData.ip[0] = v.get<int>();
         break;
     case TYPE_LONG:
         memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(long));
-        mData.lp[0] = iVar.get<long>();
+        mData.lp[0] = v.get<long>();
         break;
     case TYPE_FLOAT:
         memmove(mData.fp+1, mData.fp, (mSize-1)*sizeof(float));
-        mData.fp[0] = iVar.get<float>();
+        mData.fp[0] = v.get<float>();
         break;
     case TYPE_DOUBLE:
         memmove(mData.dp+1, mData.dp, (mSize-1)*sizeof(double));
-        mData.dp[0] = iVar.get<double>();
+        mData.dp[0] = v.get<double>();
         break;
     case TYPE_CFLOAT:
         memmove(mData.cfp+1, mData.cfp, (mSize-1)*sizeof(cfloat));
-        mData.cfp[0] = iVar.get<cfloat>();
+        mData.cfp[0] = v.get<cfloat>();
         break;
     case TYPE_CDOUBLE:
         memmove(mData.cdp+1, mData.cdp, (mSize-1)*sizeof(cdouble));
-        mData.cdp[0] = iVar.get<cdouble>();
+        mData.cdp[0] = v.get<cdouble>();
         break;
     case TYPE_VAR:
         memmove(mData.vp+1, mData.vp, (mSize-1)*sizeof(var));
         new (&mData.vp[0]) var();
-        mData.vp[0] = iVar;
+        mData.vp[0] = v;
         break;
-    case TYPE_PAIR:
-        throw error("Heap::unshift(): Can't unshift a pair");
     default:
         throw error("Heap::unshift(): Unknown type");
     }
diff --git a/lube/heap.h b/lube/heap.h
index d1bf28b..75cb321 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -185,6 +185,7 @@ namespace libube
         ind mType;      ///< The data type
 
         void copy(const Heap* iHeap, int iSize);
+        var element(var iVar) const;
 
     private:
         // Members
-- 
2.43.0


From 96d95369e848d47854af248f7007ef264eb41afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 020/136] fix: push() of an unsuitable value to an array threw,
 but extended the array anyway

---
 lube/heap.h  | 6 +++++-
 lube/var.cpp | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lube/heap.h b/lube/heap.h
index 75cb321..c5f9112 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -84,6 +84,7 @@ namespace libube
         virtual bool copyable(IHeap* iHeap) = 0;
         virtual var shift() = 0;
         virtual void unshift(var iVar) = 0;
+        virtual var element(var iVar) const = 0;
         virtual bool defined(ind iIndex) = 0;
         virtual var* deref(ind iIndex) = 0;
         virtual int derefSize(ind iIndex) = 0;
@@ -159,6 +160,7 @@ namespace libube
         virtual bool copyable(IHeap* iHeap) { return false; };
         virtual var shift();
         virtual void unshift(var iVar);
+        virtual var element(var iVar) const;
         virtual var* deref(ind iIndex);
         virtual bool defined(ind iIndex);
         virtual int derefSize(ind iIndex);
@@ -185,7 +187,6 @@ namespace libube
         ind mType;      ///< The data type
 
         void copy(const Heap* iHeap, int iSize);
-        var element(var iVar) const;
 
     private:
         // Members
@@ -252,6 +253,9 @@ namespace libube
         virtual var at(int iIndex, bool iKey=false) const {
             return mHeap->at(iIndex + mData.ip[0], iKey);
         };
+        virtual var element(var iVar) const {
+            return mHeap->element(iVar);
+        };
         virtual var& key(int iIndex) {
             return mHeap->key(iIndex + mData.ip[0]);
         };
diff --git a/lube/var.cpp b/lube/var.cpp
index 4c345b7..207c6f9 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1157,7 +1157,12 @@ var& var::push(var iVar)
             throw error("push(): Incompatible types");
     }
 
-    (*this)[size()] = iVar;
+    // If the value can't be cast to the type of the array then throw before
+    // changing the size
+    if (heap())
+        (*this)[size()] = heap()->element(iVar);
+    else
+        (*this)[size()] = iVar;
     return *this;
 }
 
-- 
2.43.0


From f84fa439e2b977857da650808647c43bcf7a0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 021/136] fix: append() of raw data to an undefined var or
 another type corrupted memory

---
 lube/var.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 207c6f9..c5149dd 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1111,6 +1111,16 @@ var var::atypeStr() const
 #define APPEND(T)                                               \
     template<> var& var::append<T>(int iSize, const T* iData)   \
     {                                                           \
+        if (!defined())                                         \
+        {                                                       \
+            /* Just like the constructor */                     \
+            var v;                                              \
+            v.attach(new Heap(iSize, iData));                   \
+            *this = v;                                          \
+            return *this;                                       \
+        }                                                       \
+        if (!atype<T>())                                        \
+            throw error("var::append(): Incompatible types");   \
         array();                                                \
         heap()->append(iSize, iData);                           \
         return *this;                                           \
@@ -1123,9 +1133,7 @@ APPEND(cdouble)
 var& var::append(const char* iStr)
 {
     // It should be a special case to avoid the strlen
-    array();
-    heap()->append(std::strlen(iStr), iStr);
-    return *this;
+    return append<char>(std::strlen(iStr), iStr);
 }
 
 
-- 
2.43.0


From 24e8dddf75ecfef152243e2b158eb125206b410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 022/136] fix: insert() of an array into itself, or at a
 negative index, overran it

---
 lube/var.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index c5149dd..d1e9328 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1195,9 +1195,13 @@ var var::pop()
  */
 var& var::insert(var iVar, int iIndex)
 {
+    if (iIndex < 0)
+        throw std::range_error("insert(): negative index");
     if (iIndex > size())
         throw std::range_error("insert(): index too large");
 
+    // It may refer to an element that is about to move
+    iVar.dereference();
     if (heap() && atype<var>())
     {
         // Implies array; insert a single var
@@ -1220,12 +1224,18 @@ var& var::insert(var iVar, int iIndex)
     }
     else
     {
-        // It's a fundamental type, insert the whole array
-        resize(size()+iVar.size());
-        for (int i=size()-1; i>iIndex+iVar.size()-1; i--)
-            at(i) = at(i-iVar.size());
-        for (int i=0; i<iVar.size(); i++)
-            at(iIndex+i) = iVar[i];
+        // It's a fundamental type, insert the whole array.  Take the values
+        // first: it could be this array, or something that can't be cast.
+        int n = iVar.size();
+        var v;
+        v.resize(n);
+        for (int i=0; i<n; i++)
+            v.at(i) = heap() ? heap()->element(iVar.at(i)) : iVar.at(i);
+        resize(size()+n);
+        for (int i=size()-1; i>iIndex+n-1; i--)
+            at(i) = at(i-n);
+        for (int i=0; i<n; i++)
+            at(iIndex+i) = v.at(i);
     }
 
     return *this;
-- 
2.43.0


From b5c08969c2de7d10b9d3cff46ab0c3512f8ade95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 023/136] fix: append() of a string to an undefined var gave an
 array of characters

---
 lube/var.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index d1e9328..a2eabbd 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1202,7 +1202,12 @@ var& var::insert(var iVar, int iIndex)
 
     // It may refer to an element that is about to move
     iVar.dereference();
-    if (heap() && atype<var>())
+    if (!defined() && iVar.heap() && !iVar.atype<var>() && !iVar.atype<pair>())
+    {
+        // It's a string or the like, and it has to stay that way
+        *this = iVar.copy();
+    }
+    else if (heap() && atype<var>())
     {
         // Implies array; insert a single var
         resize(size()+1);
-- 
2.43.0


From 5831910c7984e15df26818ced1d9a46427051f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 024/136] fix: strip() of a string of only spaces gave it a
 negative size

---
 lube/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb9353e..532ccf6 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -236,7 +236,7 @@ void Strip::string(const var& iVar, var& oVar) const
     while ((leading < is) && (isspace(ip[leading])))
         leading++;
     int trailing = 0;
-    while ((trailing < is) && (isspace(ip[is-trailing-1])))
+    while ((trailing < is-leading) && (isspace(ip[is-trailing-1])))
         trailing++;
 
     int newSize = is - leading - trailing;
-- 
2.43.0


From 24582317918e22cb8c1738ac7fb40083f9d8ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 025/136] fix: strip() into another var wrote to memory that
 had been freed

---
 lube/string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index 532ccf6..22b66dc 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -251,6 +251,7 @@ void Strip::string(const var& iVar, var& oVar) const
     {
         oVar = "";
         oVar.resize(newSize);
+        op = oVar.ptr<char>();
         for (int i=0; i<newSize; i++)
             op[i] = ip[i+leading];
     }
-- 
2.43.0


From 3fe9ac970ff4f053b41e0d2b24c43466e16a5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:35 +0000
Subject: [PATCH 026/136] fix: split() on an empty separator never ended, and
 split(1) split

---
 lube/string.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index 22b66dc..2255b04 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -149,6 +149,8 @@ var var::split(const char* iStr, int iMax) const
 {
     var r;
     int strLen = std::strlen(iStr);
+    if (strLen == 0)
+        throw error("var::split(): Empty separator");
     const char* source = this->str();
     const char* p;
     if (iMax != 1)
@@ -180,6 +182,11 @@ var var::split(int iMax) const
     const char* source = this->str();
     const char* p = source;
     while (std::isspace(*p)) { ++p; }
+    if ((iMax == 1) && *p)
+    {
+        r.push(p);
+        return r;
+    }
     while (*p)
     {
         const char* beg = p;
-- 
2.43.0


From 565b962f04ccb89f63976164419fa5181715ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 027/136] fix: getline() added a character if the last line was
 not terminated, and hung on error

---
 lube/string.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 2255b04..74f6d73 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -105,9 +105,9 @@ RegExFunctor::~RegExFunctor()
  */
 var& var::getline(std::istream& iStream)
 {
-    // Peek ahead to set eof if necessary, return nil if done
+    // Peek ahead to set eof if necessary, return nil if done or broken
     iStream.peek();
-    if (iStream.eof())
+    if (!iStream.good())
         return clear();
 
     // Start off as a string as an array; re-use the existing array if possible
@@ -121,9 +121,11 @@ var& var::getline(std::istream& iStream)
     int size = 63; // var adds the \0 automatically
     resize(size);
     char* str = ptr<char>();
-    while (!iStream.eof())
+    while (iStream.good())
     {
-        char c = iStream.get();
+        int c = iStream.get();
+        if (c == std::istream::traits_type::eof())
+            break;
         if (c == '\n') // Unix specific?  ...no, I think c++ will change it to
                        // whatever is appropriate
             break;
-- 
2.43.0


From 0e1169193dd3b15ba34d26059fd68cebc0763021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:56 +0000
Subject: [PATCH 028/136] fix: regex search and match in place read memory that
 had been freed

---
 lube/string.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 74f6d73..e1c62ec 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -271,10 +271,12 @@ void Search::string(const var& iVar, var& oVar) const
     boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
     boost::cmatch matches;
     bool r = boost::regex_search(const_cast<var&>(iVar).str(), matches, re);
-    oVar = nil;
+    var v;
     if (r)
         for (int i=0; i<(int)matches.size(); i++)
-            oVar[i] = matches.str(i).c_str();
+            v[i] = matches.str(i).c_str();
+    // This can be in place, so not until the matches are copied
+    oVar = v;
 }
 
 var var::search(var iRE)
@@ -290,10 +292,12 @@ void Match::string(const var& iVar, var& oVar) const
     boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
     boost::cmatch matches;
     bool r = boost::regex_match(const_cast<var&>(iVar).str(), matches, re);
-    oVar = nil;
+    var v;
     if (r)
         for (int i=0; i<(int)matches.size(); i++)
-            oVar[i] = matches.str(i).c_str();
+            v[i] = matches.str(i).c_str();
+    // This can be in place, so not until the matches are copied
+    oVar = v;
 }
 
 var var::match(var iRE)
-- 
2.43.0


From 3bf71bc7beb2a29ed3dc7b411733d20743cbd960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 029/136] fix: varstream took the byte 0xff to be the end of
 the stream

---
 lube/stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 3fc3b76..d27038a 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -56,7 +56,7 @@ int varbuf::uflow()
     //
     // Following stringstream, this doesn't destroy the string
     if (mInd < mVar.size())
-        return mVar[mInd++].get<char>();
+        return traits_type::to_int_type(mVar[mInd++].get<char>());
     return traits_type::eof();
 }
 
@@ -64,7 +64,7 @@ int varbuf::underflow()
 {
     // Called for reads that do not consume data if not uflow().
     if (mInd < mVar.size())
-        return mVar[mInd].get<char>();
+        return traits_type::to_int_type(mVar[mInd].get<char>());
     return traits_type::eof();
 }
 
@@ -73,7 +73,7 @@ int varbuf::pbackfail(int iInt)
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
     if (mInd > 0)
-        return mVar[--mInd].get<char>();
+        return traits_type::to_int_type(mVar[--mInd].get<char>());
     return traits_type::eof();
 }
 
-- 
2.43.0


From 0673150ff94a17b275e34bb606e32b916befe19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:24 +0000
Subject: [PATCH 030/136] fix: seeking a varstream to its end was ignored, and
 beyond it was a silent success

---
 lube/stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index d27038a..311746b 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -82,8 +82,9 @@ std::streampos varbuf::seekpos(
 )
 {
     // Ignore mode for the moment
-    if (iPos < mVar.size())
-        mInd = iPos;
+    if ( (iPos < 0) || (iPos > mVar.size()) )
+        return std::streamoff(-1);
+    mInd = iPos;
     return iPos;
 }
 
-- 
2.43.0


From e52ce645585f095bb7fc49a12596f205b5e8757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 031/136] fix: indexing a single value by key dereferenced a
 null pointer

---
 lube/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index a2eabbd..ccf2645 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -810,7 +810,7 @@ var var::operator [](var iVar)
         v.attach(new Heap(0, TYPE_PAIR));
     }
     else
-        if (v.heap() && !v.atype<pair>())
+        if (!v.heap() || !v.atype<pair>())
             // Fall back to normal array if the var can be cast to int
             return operator [](iVar.cast<int>());
     if (!iVar)
@@ -904,7 +904,7 @@ var var::at(var iVar) const
     if (!defined())
         throw error("var::at(): uninitialised");
     else
-        if (heap() && !atype<pair>())
+        if (!heap() || !atype<pair>())
             throw error("operator [var]: Not a map");
 
     int index = binary(iVar);
-- 
2.43.0


From f4822a27807f201ca74edbcbcb87eedc38ac286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 032/136] fix: range() changed the array that its limit
 referred to, and hung on some arguments

---
 lube/var.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index ccf2645..182bcb3 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -929,6 +929,16 @@ var var::key(int iIndex) const
  */
 var libube::irange(var iLo, var iHi, var iStep)
 {
+    // It could be a reference; the arithmetic is on the value
+    iLo.dereference();
+
+    // It would not end otherwise.  Values of different types don't compare as
+    // numbers, and the step is cast to the type of the limits.
+    var zero = iLo - iLo;
+    if (iLo.type() != iHi.type())
+        throw error("irange(): limits must be of the same type");
+    if (zero + iStep <= zero)
+        throw error("irange(): step must be positive");
     var r;
     while (iLo < iHi)
     {
@@ -955,6 +965,16 @@ var libube::irange(var iHi)
  */
 var libube::range(var iLo, var iHi, var iStep)
 {
+    // It could be a reference; the arithmetic is on the value
+    iLo.dereference();
+
+    // It would not end otherwise.  Values of different types don't compare as
+    // numbers, and the step is cast to the type of the limits.
+    var zero = iLo - iLo;
+    if (iLo.type() != iHi.type())
+        throw error("range(): limits must be of the same type");
+    if (zero + iStep <= zero)
+        throw error("range(): step must be positive");
     var r;
     while (iLo <= iHi)
     {
-- 
2.43.0


From ed03cd08df5507073e2e0515dfcf4cd193fc079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 033/136] fix: JSON numbers swallowed the delimiter, so [1, 2]
 and {"a":1} did not parse

---
 lube/json.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index e96ff29..27c7b58 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -186,14 +186,15 @@ var JSON::doRaw(std::istream& iStream)
 {
     // Read up to a space or JSON delimiter
     var val = "";
-    char c;
-    while (iStream.get(c))
+    for (;;)
     {
-        if (isspace(c))
+        // The delimiter is not part of the value, so must not be consumed
+        int c = iStream.peek();
+        if (c == istream::traits_type::eof())
             break;
-        if (strchr(",[]{}", c))
+        if (isspace(c) || strchr(",[]{}", c))
             break;
-        val.push(c);
+        val.push((char)iStream.get());
     }
 
     // These values have special meanings
-- 
2.43.0


From 354c6b407ea6ae80f779edb0e6bdef9338be0538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 034/136] fix: JSON numbers with a fraction or exponent were
 truncated to an integer

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 27c7b58..7b7c613 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -167,7 +167,7 @@ var toNumber(var iStr)
     varstream vs(iStr);
     long l;
     vs >> l;
-    if (!vs.fail())
+    if (!vs.fail() && (vs.peek() == istream::traits_type::eof()))
         return l;
 
     // Try for double
@@ -175,7 +175,7 @@ var toNumber(var iStr)
     vs.seekg(0);
     double d;
     vs >> d;
-    if (!vs.fail())
+    if (!vs.fail() && (vs.peek() == istream::traits_type::eof()))
         return d;
 
     // Failed
-- 
2.43.0


From 11c6d703c53461426b0f52fa8f17d66eac928189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 035/136] fix: printing an array of cdouble printed addresses

---
 lube/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 7b7c613..84a426f 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -347,7 +347,7 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
             {
                 for (int j=0; j<iIndent+2; j++)
                     iStream << " ";
-                iStream << iVar.ptr<cdouble>(i);
+                iStream << *iVar.ptr<cdouble>(i);
                 if (i < iVar.size()-1)
                     iStream << ",";
                 iStream << "\n";
-- 
2.43.0


From 41c63ea061da4d099e0d11ecce7951c6e2bac485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 036/136] fix: JSON arrays of mixed types did not parse or lost
 fractions, and [] and [1] were not arrays

---
 lube/json.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 84a426f..ca87cca 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -32,6 +32,7 @@ namespace libube
         var doValue(std::istream& iStream);
         var doObject(std::istream& iStream);
         var doArray(std::istream& iStream);
+        var dense(var iArray);
         var doString(std::istream& iStream);
         var doRaw(std::istream& iStream);
     };
@@ -107,9 +108,33 @@ var JSON::doObject(std::istream& iStream)
     return obj;
 }
 
+/**
+ * Where all the elements of an array are numbers, it can be an array of a
+ * numeric type.  Otherwise it stays as an array of var.
+ */
+var JSON::dense(var iArray)
+{
+    bool isDouble = false;
+    for (int i=0; i<iArray.size(); i++)
+    {
+        ind type = iArray.at(i).type();
+        if (type == TYPE_ARRAY)
+            return iArray;
+        if (type == TYPE_DOUBLE)
+            isDouble = true;
+    }
+    var arr;
+    for (int i=0; i<iArray.size(); i++)
+        arr.push(isDouble
+                 ? var(iArray.at(i).cast<double>())
+                 : var(iArray.at(i).cast<long>()));
+    return arr ? arr.array() : iArray;
+}
+
 var JSON::doArray(std::istream& iStream)
 {
     var arr;
+    arr.resize(0);
     char got = iStream.get();
     if (got != '[')
         throw error("JSON array doesn't start with [");
@@ -119,7 +144,7 @@ var JSON::doArray(std::istream& iStream)
         {
         case ']':
             iStream.get();
-            return arr;
+            return dense(arr);
             break;
         case ',':
             iStream.get();
-- 
2.43.0


From 968b4aa2341283cd8f636234d9e2ea2bc1e3c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:45 +0000
Subject: [PATCH 037/136] fix: JSON strings with quotes, backslashes or control
 characters were not written or read back

---
 lube/json.cpp | 114 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 111 insertions(+), 3 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index ca87cca..d543325 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -28,12 +28,15 @@ namespace libube
     private:
         void formatArray(std::ostream& iStream, var iVar, int iIndent);
         void formatView(std::ostream& iStream, var iVar, int iIndent);
+        void formatString(std::ostream& iStream, var iVar);
         char peek(std::istream& iStream);
         var doValue(std::istream& iStream);
         var doObject(std::istream& iStream);
         var doArray(std::istream& iStream);
         var dense(var iArray);
         var doString(std::istream& iStream);
+        int doHex(std::istream& iStream);
+        void doUnicode(std::istream& iStream, var& ioStr);
         var doRaw(std::istream& iStream);
     };
 }
@@ -156,6 +159,58 @@ var JSON::doArray(std::istream& iStream)
     return arr;
 }
 
+/** The four hex digits of a unicode escape */
+int JSON::doHex(std::istream& iStream)
+{
+    int hex = 0;
+    for (int i=0; i<4; i++)
+    {
+        int c = iStream.get();
+        if (!isxdigit(c))
+            throw error("Invalid JSON unicode escape");
+        hex = hex * 16 + (isdigit(c) ? c - '0' : std::tolower(c) - 'a' + 10);
+    }
+    return hex;
+}
+
+/** Append a unicode escape as UTF-8; it could be a surrogate pair */
+void JSON::doUnicode(std::istream& iStream, var& ioStr)
+{
+    int u = doHex(iStream);
+    if ((u >= 0xd800) && (u < 0xdc00))
+    {
+        if ((iStream.get() != '\\') || (iStream.get() != 'u'))
+            throw error("Invalid JSON unicode escape");
+        int v = doHex(iStream);
+        if ((v < 0xdc00) || (v >= 0xe000))
+            throw error("Invalid JSON unicode escape");
+        u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
+    }
+    else if ((u >= 0xdc00) && (u < 0xe000))
+        throw error("Invalid JSON unicode escape");
+
+    if (u < 0x80)
+        ioStr.push((char)u);
+    else if (u < 0x800)
+    {
+        ioStr.push((char)(0xc0 | (u >> 6)));
+        ioStr.push((char)(0x80 | (u & 0x3f)));
+    }
+    else if (u < 0x10000)
+    {
+        ioStr.push((char)(0xe0 | (u >> 12)));
+        ioStr.push((char)(0x80 | ((u >> 6) & 0x3f)));
+        ioStr.push((char)(0x80 | (u & 0x3f)));
+    }
+    else
+    {
+        ioStr.push((char)(0xf0 | (u >> 18)));
+        ioStr.push((char)(0x80 | ((u >> 12) & 0x3f)));
+        ioStr.push((char)(0x80 | ((u >> 6) & 0x3f)));
+        ioStr.push((char)(0x80 | (u & 0x3f)));
+    }
+}
+
 var JSON::doString(std::istream& iStream)
 {
     var str = "";
@@ -173,8 +228,28 @@ var JSON::doString(std::istream& iStream)
             switch (got)
             {
             case '\"':
+            case '\\':
+            case '/':
                 str.push(got);
                 break;
+            case 'b':
+                str.push('\b');
+                break;
+            case 'f':
+                str.push('\f');
+                break;
+            case 'n':
+                str.push('\n');
+                break;
+            case 'r':
+                str.push('\r');
+                break;
+            case 't':
+                str.push('\t');
+                break;
+            case 'u':
+                doUnicode(iStream, str);
+                break;
             default:
                 throw error("Unrecognised JSON string escape");
             }
@@ -316,14 +391,47 @@ std::ostream& libube::operator <<(std::ostream& iStream, var iVar)
     return iStream;
 }
 
+/**
+ * The characters that would otherwise end or corrupt the string are escaped.
+ */
+void JSON::formatString(std::ostream& iStream, var iVar)
+{
+    static const char* hex = "0123456789abcdef";
+    char* str = iVar.ptr<char>();
+    iStream << "\"";
+    for (int i=0; i<iVar.size(); i++)
+        switch (str[i])
+        {
+        case '\"':
+            iStream << "\\\"";
+            break;
+        case '\\':
+            iStream << "\\\\";
+            break;
+        case '\n':
+            iStream << "\\n";
+            break;
+        case '\r':
+            iStream << "\\r";
+            break;
+        case '\t':
+            iStream << "\\t";
+            break;
+        default:
+            if (iscntrl((unsigned char)str[i]) && (str[i] != 0x7f))
+                iStream << "\\u00" << hex[str[i] >> 4] << hex[str[i] & 0xf];
+            else
+                iStream << str[i];
+        }
+    iStream << "\"";
+}
+
 void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
 {
     switch (iVar.atype())
     {
     case TYPE_CHAR:
-        iStream << "\"";
-        iStream << iVar.ptr<char>();
-        iStream << "\"";
+        formatString(iStream, iVar);
         break;
     case TYPE_PAIR:
         // Might be empty
-- 
2.43.0


From b6e893f6630521bb81ae6c60e5ed497f58230afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:56 +0000
Subject: [PATCH 038/136] fix: arrays of cdouble were treated as a single value
 by the math functors

---
 lube/math.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index ae82f76..9166b14 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -68,7 +68,8 @@ using namespace libube;
 
 
 /**
- * Report var type, but treating TYPE_CDOUBLE as a type rather than an array.
+ * Report var type, but treating a single TYPE_CDOUBLE as a type rather than an
+ * array.
  *
  * This avoids an infinite loop where arrays are always broadcasted, and
  * broadcasting calls the original unary operator again.
@@ -76,7 +77,7 @@ using namespace libube;
 ind type(var iVar)
 {
     ind type = iVar.type();
-    if (iVar.atype<cdouble>())
+    if (iVar.atype<cdouble>() && !iVar.view() && (iVar.size() == 1))
         type = TYPE_CDOUBLE;
     return type;
 }
-- 
2.43.0


From 30c8efa751c692e5e5e2af45a52fcaa8cd00f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 039/136] fix: adding arrays without an in place target changed
 the first operand and returned garbage

---
 lube/math.cpp | 80 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 14 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 9166b14..ace0605 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -326,6 +326,36 @@ void Swap::vector(
 }
 
 
+/**
+ * Throws unless iVar2 can be applied element by element to (the trailing
+ * dimensions of) iVar1, giving oVar.
+ */
+static void elementwise(var iVar1, var iVar2, var oVar)
+{
+    int dim1 = iVar1.dim();
+    int dim2 = iVar2.dim();
+    for (int i=1; i<=dim2; i++)
+        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
+            throw error("elementwise(): dimension mismatch");
+    if (oVar.size() != iVar1.size())
+        throw error("elementwise(): output is the wrong size");
+}
+
+
+/**
+ * Wrapper around blas::axpy(), which can only work in place
+ */
+template<class T>
+static void axpy(int iSize, T iAlpha, T* iX, T* iY, T* oY)
+{
+    if (iY == oY)
+        blas::axpy(iSize, iAlpha, iX, oY);
+    else
+        for (int i=0; i<iSize; i++)
+            oY[i] = iY[i] + iAlpha * iX[i];
+}
+
+
 void Add::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
     switch(type(iVar1))
@@ -367,36 +397,40 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
+    elementwise(iVar1, iVar2, oVar);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-        blas::axpy(
+        axpy(
             size, 1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            iVar1.ptr<float>(iOffset1),
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
-        blas::axpy(
+        axpy(
             size, 1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            iVar1.ptr<double>(iOffset1),
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CFLOAT:
-        blas::axpy(
+        axpy(
             size, cfloat(1.0f,0.0f),
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            iVar1.ptr<cfloat>(iOffset1),
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
-        blas::axpy(
+        axpy(
             size, cdouble(1.0,0.0),
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            iVar1.ptr<cdouble>(iOffset1),
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
@@ -446,22 +480,40 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
+    elementwise(iVar1, iVar2, oVar);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-        blas::axpy(
+        axpy(
             size, -1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            iVar1.ptr<float>(iOffset1),
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
-        blas::axpy(
+        axpy(
             size, -1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            iVar1.ptr<double>(iOffset1),
+            oVar.ptr<double>(iOffsetO)
+        );
+        break;
+    case TYPE_CFLOAT:
+        axpy(
+            size, cfloat(-1.0f,0.0f),
+            iVar2.ptr<cfloat>(iOffset2),
+            iVar1.ptr<cfloat>(iOffset1),
+            oVar.ptr<cfloat>(iOffsetO)
+        );
+        break;
+    case TYPE_CDOUBLE:
+        axpy(
+            size, cdouble(-1.0,0.0),
+            iVar2.ptr<cdouble>(iOffset2),
+            iVar1.ptr<cdouble>(iOffset1),
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From 2a6a22ccc96075cb999cc48edb31daeabf567510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 040/136] fix: printing a view of cdouble, or an element of it,
 threw

---
 lube/json.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index d543325..015e9f6 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -374,8 +374,7 @@ void JSON::format(std::ostream& iStream, var iVar, int iIndent)
         iStream << iVar.get<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        //iStream << iVar.get<cdouble>();
-        throw error("var::format(): cdouble should be array");
+        iStream << iVar.get<cdouble>();
         break;
     default:
         throw error("var::format(): Unknown type");
-- 
2.43.0


From eabbf1d5d18c57e9111a903810e12fc070d44c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 041/136] fix: swap() of matrices, or of arrays of different
 sizes, overran them

---
 lube/func.cpp | 9 +++++++++
 lube/math.cpp | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 0812928..2e8178c 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -238,6 +238,15 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     if (cdim < 0)
         throw error("var::broadcast: input dimension too small");
 
+    if ((iVar2.dim() < cdim) || (oVar.dim() < cdim))
+        throw error("var::broadcast: input dimension too small");
+    for (int i=0; i<cdim; i++)
+        if ((iVar2.shape(i) != iVar1.shape(i)) ||
+            (oVar.shape(i) != iVar1.shape(i)))
+            throw error("var::broadcast: dimension mismatch");
+    if (iVar1.size() == 0)
+        return;
+
     // Assume that the common dimension is to be broadcast over.
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
diff --git a/lube/math.cpp b/lube/math.cpp
index ace0605..7c2f7b9 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -289,7 +289,9 @@ void Swap::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    int size = iVar1.size();
+    int size = iVar1.shape(-1);
+    if (iVar2.shape(-1) != size)
+        throw error("Swap::vector: dimension mismatch");
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From 7960940315956067ea2df8f5adbdf3774c22f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 042/136] fix: x -= x[0] and x -= row of x used the value that
 had just been written

---
 lube/func.cpp | 50 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 2e8178c..35e9f37 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -9,10 +9,38 @@
 
 #include "lube/func.h"
 #include "lube/var.h"
+#include "lube/heap.h"
 
 using namespace libube;
 
 
+/**
+ * Whether iVar is a single value rather than an array.  A single cdouble looks
+ * like an array of size 1.
+ */
+static bool isSingle(var iVar)
+{
+    if (iVar.type() != TYPE_ARRAY)
+        return true;
+    return iVar.atype<cdouble>() && !iVar.view() && (iVar.size() == 1);
+}
+
+
+/**
+ * Whether two arrays have, or are views of, the same storage
+ */
+static bool shareHeap(var iVar1, var iVar2)
+{
+    IHeap* h1 = iVar1.heap();
+    IHeap* h2 = iVar2.heap();
+    if (!h1 || !h2)
+        return false;
+    IHeap* r1 = h1->view() ? h1->view() : h1;
+    IHeap* r2 = h2->view() ? h2->view() : h2;
+    return r1 == r2;
+}
+
+
 /**
  * The default allocator is simply to make a copy of the input variable with
  * the same type and shape.  Only the allocation is done; data is not copied.
@@ -272,11 +300,21 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     // Call back to the unary operator
     if ((dim2 == 1) && (iVar2.size() == 1))
     {
+        // If iVar1 is a single value, scalar() just called back to here
+        if (isSingle(iVar1))
+            throw error("ArithmeticFunctor: not a scalar operation");
+        if (oVar.size() != iVar1.size())
+            throw error("ArithmeticFunctor: output is the wrong size");
+
+        // iVar2 could be an element of oVar, which is about to change
+        var var2 = iVar2.copy();
+        var2.dereference();
+
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
             var tmp = oVar.at(i);
-            scalar(iVar1.at(i), iVar2, tmp);
+            scalar(iVar1.at(i), var2, tmp);
         }
         return;
     }
@@ -297,12 +335,22 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     }
 #endif
 
+    if (iVar1.size() == 0)
+        return;
+
+    // iVar2 could be a part of oVar other than the one to be written
+    if (shareHeap(iVar2, oVar) &&
+        ((iVar2.size() != oVar.size()) || (iVar2.offset() != oVar.offset())))
+        iVar2 = iVar2.copy();
+
     // If it didn't throw, then the arrays are broadcastable
     // In this case, loop over iVar1 with different offsets
     int dimO = oVar.dim();
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
     int nOps = iVar1.size() / step1;
+    if (stepO * nOps != oVar.size())
+        throw error("var::broadcast: output is the wrong size");
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
-- 
2.43.0


From ae5070b713555714ff3c60248de3664065b3673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 043/136] fix: functors crashed on empty arrays, scalars, and
 outputs of the wrong size

---
 lube/func.cpp | 20 ++++++++++++++++++++
 lube/math.cpp |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index 35e9f37..01c09a5 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -129,6 +129,12 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     // Call back to the unary operator
     if (mDim == 0)
     {
+        // If iVar is a single value, scalar() just called back to here
+        if (isSingle(iVar))
+            throw error("UnaryFunctor: not a scalar operation");
+        if (oVar.size() != iVar.size())
+            throw error("UnaryFunctor: output is the wrong size");
+
         // This could be parallel!
         for (int i=0; i<iVar.size(); i++)
         {
@@ -147,6 +153,8 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
         s << mDim << " > " << dimI;
         throw error(s);
     }
+    if (iVar.size() == 0)
+        return;
 
     // If it didn't throw, then the array is broadcastable
     // In this case, loop over iVar (and oVar) with different offsets
@@ -154,6 +162,8 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
     int nOps = iVar.size() / stepI;
+    if (stepO * nOps != oVar.size())
+        throw error("UnaryFunctor::broadcast: output is the wrong size");
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -445,6 +455,16 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
     int cdim = dimO - mDim;
     if (cdim < 0)
         throw error("var::broadcast: input dimension too small");
+    if (oVar.size() == 0)
+        return;
+    for (int i=0; i<iVar.size(); i++)
+    {
+        if (iVar[i].dim() < cdim)
+            throw error("var::broadcast: input dimension too small");
+        for (int d=0; d<cdim; d++)
+            if (iVar[i].shape(d) != oVar.shape(d))
+                throw error("var::broadcast: dimension mismatch");
+    }
 
     // Assume that the common dimension is to be broadcast over.
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
diff --git a/lube/math.cpp b/lube/math.cpp
index 7c2f7b9..b0b4041 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1003,6 +1003,8 @@ var IAMax::alloc(var iVar) const
     }
     else
     {
+        if (iVar.size() == 0)
+            throw error("IAMax::alloc: empty array");
         r = 0l;
     }
     return r;
-- 
2.43.0


From 28d57b23c6b7c6a65f67f73b5696eb13567132f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 044/136] fix: dot() read beyond arrays of different sizes, and
 recursed for ever on size 1

---
 lube/math.cpp | 47 +++++++++++++++++++++++++++++++++++++++--------
 lube/math.h   |  1 +
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index b0b4041..55d4e6d 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -711,6 +711,40 @@ var Dot::alloc(var iVar1, var iVar2) const
 }
 
 
+/**
+ * Overload of broadcast() for dot product and matrix multiplication.  Unlike
+ * for the elementwise operations, iVar2 of size 1 is not special, and the
+ * shape of the output is not that of iVar1.
+ */
+void Dot::broadcast(var iVar1, var iVar2, var& oVar) const
+{
+    int dim1 = iVar1.dim();
+    int dim2 = iVar2.dim();
+    if ((dim2 > dim1) || (dim2 > 2))
+        throw error("Dot::broadcast: input dimension too large");
+    if (iVar1.atype() != iVar2.atype())
+        throw error("Dot::broadcast: types must match (for now)");
+    if (iVar1.shape(dim1-1) != iVar2.shape(0))
+        throw error("Dot::broadcast: shapes not compatible");
+    if (iVar1.size() == 0)
+        return;
+
+    // One operation is the product of step1 elements with the whole of iVar2
+    int step1 = iVar1.shape(dim1-1);
+    int stepO = 1;
+    if (dim2 == 2)
+    {
+        step1 *= iVar1.shape(dim1-2);
+        stepO = iVar1.shape(dim1-2) * iVar2.shape(1);
+    }
+    int nOps = iVar1.size() / step1;
+    if (stepO * nOps != oVar.size())
+        throw error("Dot::broadcast: output is the wrong size");
+    for (int i=0; i<nOps; i++)
+        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
+}
+
+
 void Dot::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
@@ -718,7 +752,7 @@ void Dot::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    if (iVar1.is(oVar))
+    if (iVar1.is(oVar) || iVar2.is(oVar))
         throw error("Dot::vector: Cannot operate in place");
 
     if (iVar2.dim() == 1)
@@ -768,16 +802,13 @@ void Dot::vector(
     {
         // It's a two dimensional thing, so do it as a matrix multiplication
         // with blas::gemm()
-        if (iVar1.shape(1) != iVar2.shape(0))
-        {
-            std::cout << iVar1.shape() << iVar2.shape() << std::endl;
-            throw error("Dot::vector: Shapes not compatible");
-        }
+        int rows = iVar1.shape(-2);
+        int cols = iVar1.shape(-1);
         switch(iVar1.atype())
         {
         case TYPE_FLOAT:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                rows, iVar2.shape(1), cols,
                 1.0f,
                 iVar1.ptr<float>(iOffset1),
                 iVar2.ptr<float>(iOffset2),
@@ -787,7 +818,7 @@ void Dot::vector(
             break;
         case TYPE_DOUBLE:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                rows, iVar2.shape(1), cols,
                 1.0,
                 iVar1.ptr<double>(iOffset1),
                 iVar2.ptr<double>(iOffset2),
diff --git a/lube/math.h b/lube/math.h
index 3be44ed..34acb89 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -162,6 +162,7 @@ namespace libube
     {
     protected:
         var alloc(var iVar1, var iVar2) const;
+        void broadcast(var iVar1, var iVar2, var& oVar) const;
         void vector(
             var iVar1, ind iOffset1,
             var iVar2, ind iOffset2,
-- 
2.43.0


From 7bb8b18caa351b01649bad78df470ce5be449aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 045/136] fix: multiplying complex arrays, x *= x, and
 assigning to views of types other than float and double

---
 lube/clapack.cpp |  12 +++
 lube/math.cpp    | 259 ++++++++++++++++++++++++++++++++++-------------
 2 files changed, 198 insertions(+), 73 deletions(-)

diff --git a/lube/clapack.cpp b/lube/clapack.cpp
index a69a0f1..d1065c5 100644
--- a/lube/clapack.cpp
+++ b/lube/clapack.cpp
@@ -109,6 +109,18 @@ namespace blas
         dscal_(&iN, &iAlpha, ioX, &sOne);
     }
 
+    template<>
+    void scal<CFLOAT>(long iN, CFLOAT iAlpha, CFLOAT* ioX)
+    {
+        cscal_(&iN, &iAlpha, ioX, &sOne);
+    }
+
+    template<>
+    void scal<CDOUBLE>(long iN, CDOUBLE iAlpha, CDOUBLE* ioX)
+    {
+        zscal_(&iN, &iAlpha, ioX, &sOne);
+    }
+
     template<>
     float dot<float>(long iN, float* iX, float* iY)
     {
diff --git a/lube/math.cpp b/lube/math.cpp
index 55d4e6d..a6a418d 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -211,6 +211,22 @@ void Pow::scalar(const var& iVar1, const var& iVar2, var& oVar) const
     }
 }
 
+/**
+ * Throws unless iVar2 can be applied element by element to (the trailing
+ * dimensions of) iVar1, giving oVar.
+ */
+static void elementwise(var iVar1, var iVar2, var oVar)
+{
+    int dim1 = iVar1.dim();
+    int dim2 = iVar2.dim();
+    for (int i=1; i<=dim2; i++)
+        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
+            throw error("elementwise(): dimension mismatch");
+    if (oVar.size() != iVar1.size())
+        throw error("elementwise(): output is the wrong size");
+}
+
+
 void Set::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
     switch(type(oVar))
@@ -245,6 +261,19 @@ void Set::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 }
 
 
+/**
+ * Copy that allows the arrays to overlap
+ */
+template<class T>
+static void setArray(int iSize, T* iX, T* oX)
+{
+    if (oX <= iX)
+        std::copy(iX, iX+iSize, oX);
+    else
+        std::copy_backward(iX, iX+iSize, oX+iSize);
+}
+
+
 void Set::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
@@ -252,21 +281,43 @@ void Set::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    elementwise(iVar1, iVar2, oVar);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
+    case TYPE_CHAR:
+        setArray(
+            size, iVar2.ptr<char>(iOffset2), oVar.ptr<char>(iOffsetO)
+        );
+        break;
+    case TYPE_INT:
+        setArray(
+            size, iVar2.ptr<int>(iOffset2), oVar.ptr<int>(iOffsetO)
+        );
+        break;
+    case TYPE_LONG:
+        setArray(
+            size, iVar2.ptr<long>(iOffset2), oVar.ptr<long>(iOffsetO)
+        );
+        break;
     case TYPE_FLOAT:
-        blas::copy(
-            size,
-            iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+        setArray(
+            size, iVar2.ptr<float>(iOffset2), oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
-        blas::copy(
-            size,
-            iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+        setArray(
+            size, iVar2.ptr<double>(iOffset2), oVar.ptr<double>(iOffsetO)
+        );
+        break;
+    case TYPE_CFLOAT:
+        setArray(
+            size, iVar2.ptr<cfloat>(iOffset2), oVar.ptr<cfloat>(iOffsetO)
+        );
+        break;
+    case TYPE_CDOUBLE:
+        setArray(
+            size, iVar2.ptr<cdouble>(iOffset2), oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
@@ -328,22 +379,6 @@ void Swap::vector(
 }
 
 
-/**
- * Throws unless iVar2 can be applied element by element to (the trailing
- * dimensions of) iVar1, giving oVar.
- */
-static void elementwise(var iVar1, var iVar2, var oVar)
-{
-    int dim1 = iVar1.dim();
-    int dim2 = iVar2.dim();
-    for (int i=1; i<=dim2; i++)
-        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
-            throw error("elementwise(): dimension mismatch");
-    if (oVar.size() != iVar1.size())
-        throw error("elementwise(): output is the wrong size");
-}
-
-
 /**
  * Wrapper around blas::axpy(), which can only work in place
  */
@@ -524,6 +559,18 @@ void Sub::vector(
 }
 
 
+/**
+ * Wrapper around blas::scal(), which can only work in place
+ */
+template<class T>
+static void scal(int iSize, T iAlpha, T* iX, T* oX)
+{
+    if (iX != oX)
+        std::copy(iX, iX+iSize, oX);
+    blas::scal(iSize, iAlpha, oX);
+}
+
+
 /**
  * Overload of broadcast() for multiplication.  This catches the case where
  * just scaling is being done, meaning a different BLAS call is necessary.
@@ -546,55 +593,36 @@ void Mul::scale(var iVar1, var iVar2, var& oVar, int iOffset) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
     int size = iVar1.size();
-    if (oVar.is(iVar1))
-    {
-        // Scale in place
-        switch(iVar1.atype())
-        {
-        case TYPE_FLOAT:
-            blas::scal(
-                size,
-                iVar2.cast<float>(),
-                iVar1.ptr<float>(iOffset)
-            );
-            break;
-        case TYPE_DOUBLE:
-            blas::scal(
-                size,
-                iVar2.cast<double>(),
-                iVar1.ptr<double>(iOffset)
-            );
-            break;
-        default:
-            throw error("Mul::scal: Unknown type");
-        }
-    }
-    else
+    if (oVar.size() != size)
+        throw error("Mul::scale: output is the wrong size");
+    switch(iVar1.atype())
     {
-        // Copy data before scaling
-        switch(iVar1.atype())
-        {
-        case TYPE_FLOAT:
-        {
-            float alpha = iVar2.cast<float>();
-            float* x = iVar1.ptr<float>(iOffset);
-            float* y =  oVar.ptr<float>(iOffset);
-            blas::copy(size, x, y);
-            blas::scal(size, alpha, y);
-            break;
-        }
-        case TYPE_DOUBLE:
-        {
-            double alpha = iVar2.cast<double>();
-            double* x = iVar1.ptr<double>(iOffset);
-            double* y =  oVar.ptr<double>(iOffset);
-            blas::copy(size, x, y);
-            blas::scal(size, alpha, y);
-            break;
-        }
-        default:
-            throw error("Mul::scal: Unknown type");
-        }
+    case TYPE_FLOAT:
+        scal(
+            size, iVar2.cast<float>(),
+            iVar1.ptr<float>(iOffset), oVar.ptr<float>(iOffset)
+        );
+        break;
+    case TYPE_DOUBLE:
+        scal(
+            size, iVar2.cast<double>(),
+            iVar1.ptr<double>(iOffset), oVar.ptr<double>(iOffset)
+        );
+        break;
+    case TYPE_CFLOAT:
+        scal(
+            size, iVar2.cast<cfloat>(),
+            iVar1.ptr<cfloat>(iOffset), oVar.ptr<cfloat>(iOffset)
+        );
+        break;
+    case TYPE_CDOUBLE:
+        scal(
+            size, iVar2.cast<cdouble>(),
+            iVar1.ptr<cdouble>(iOffset), oVar.ptr<cdouble>(iOffset)
+        );
+        break;
+    default:
+        throw error("Mul::scale: Unknown type");
     }
 }
 
@@ -633,6 +661,17 @@ void Mul::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 }
 
 
+/**
+ * Elementwise product without the restrictions that BLAS has on aliasing
+ */
+template<class T>
+static void product(int iSize, T* iX, T* iY, T* oZ)
+{
+    for (int i=0; i<iSize; i++)
+        oZ[i] = iX[i] * iY[i];
+}
+
+
 void Mul::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
@@ -643,8 +682,50 @@ void Mul::vector(
     // matrix.  In BLAS speak, a diagonal matrix is a band matrix with no
     // superdiagonals.
     assert(type(iVar1) == TYPE_ARRAY);
+    elementwise(iVar1, iVar2, oVar);
     int size = iVar2.size();
-    if (iVar1.is(oVar))
+    if (iVar2.is(oVar))
+    {
+        // BLAS doesn't allow the output to be the second operand
+        switch(iVar1.atype())
+        {
+        case TYPE_FLOAT:
+            product(
+                size,
+                iVar1.ptr<float>(iOffset1),
+                iVar2.ptr<float>(iOffset2),
+                oVar.ptr<float>(iOffsetO)
+            );
+            break;
+        case TYPE_DOUBLE:
+            product(
+                size,
+                iVar1.ptr<double>(iOffset1),
+                iVar2.ptr<double>(iOffset2),
+                oVar.ptr<double>(iOffsetO)
+            );
+            break;
+        case TYPE_CFLOAT:
+            product(
+                size,
+                iVar1.ptr<cfloat>(iOffset1),
+                iVar2.ptr<cfloat>(iOffset2),
+                oVar.ptr<cfloat>(iOffsetO)
+            );
+            break;
+        case TYPE_CDOUBLE:
+            product(
+                size,
+                iVar1.ptr<cdouble>(iOffset1),
+                iVar2.ptr<cdouble>(iOffset2),
+                oVar.ptr<cdouble>(iOffsetO)
+            );
+            break;
+        default:
+            throw error("Mul::vector: Unknown type");
+        }
+    }
+    else if (iVar1.is(oVar))
     {
         // tbmv() (triangular band) overwrites the current location.
         switch(iVar1.atype())
@@ -661,6 +742,22 @@ void Mul::vector(
                 iVar2.ptr<double>(iOffset2), iVar1.ptr<double>(iOffset1)
             );
             break;
+        case TYPE_CFLOAT:
+            product(
+                size,
+                iVar1.ptr<cfloat>(iOffset1),
+                iVar2.ptr<cfloat>(iOffset2),
+                oVar.ptr<cfloat>(iOffsetO)
+            );
+            break;
+        case TYPE_CDOUBLE:
+            product(
+                size,
+                iVar1.ptr<cdouble>(iOffset1),
+                iVar2.ptr<cdouble>(iOffset2),
+                oVar.ptr<cdouble>(iOffsetO)
+            );
+            break;
         default:
             throw error("Mul::vector: Unknown type");
         }
@@ -682,6 +779,22 @@ void Mul::vector(
                             iVar1.ptr<double>(iOffset1),
                        0.0, oVar.ptr<double>(iOffsetO));
             break;
+        case TYPE_CFLOAT:
+            product(
+                size,
+                iVar1.ptr<cfloat>(iOffset1),
+                iVar2.ptr<cfloat>(iOffset2),
+                oVar.ptr<cfloat>(iOffsetO)
+            );
+            break;
+        case TYPE_CDOUBLE:
+            product(
+                size,
+                iVar1.ptr<cdouble>(iOffset1),
+                iVar2.ptr<cdouble>(iOffset2),
+                oVar.ptr<cdouble>(iOffsetO)
+            );
+            break;
         default:
             throw error("Mul::vector: Unknown type");
         }
-- 
2.43.0


From 72ca4e6700272a8dc238d7f3a65e464b7899408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 046/136] fix: roots() of a linear polynomial threw, poly() of
 cdouble was allocated as cfloat

---
 lube/math.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index a6a418d..bc2de29 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1252,7 +1252,7 @@ void Roots::vector(var iVar, var& oVar) const
 {
     // Form the companion matrix of the polynomial
     int size = oVar.size();
-    var a = var(size*size, iVar.at(0)).view({size, size});
+    var a = view({size, size}, iVar.at(0));
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
     for (int r=0; r<size-1; r++)
@@ -1342,7 +1342,7 @@ var Poly::alloc(var iVar) const
         r = view(s, cfloat(0.0f, 0.0f));
         break;
     case TYPE_CDOUBLE:
-        r = view(s, cfloat(0.0, 0.0));
+        r = view(s, cdouble(0.0, 0.0));
         break;
     }
     return r;
@@ -1369,6 +1369,8 @@ void polyt(int iOrder, T* iData, T* oData)
 void Poly::vector(var iVar, var& oVar) const
 {
     int order = iVar.shape(-1);
+    if (oVar.shape(-1) != order+1)
+        throw error("Poly::vector: output is the wrong size");
     switch (iVar.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From eb6bb09adad0287d3568f054ae3c5c63f32c4dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 047/136] fix: double precision DFTs threw

---
 lube/dft-mkl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 2feb0d4..dcb3844 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -56,7 +56,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     // Set the input and output types for a forward transform
     MKL_LONG r;
-    switch (mImpl->forwardType.type())
+    switch (mImpl->forwardType.atype())
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
@@ -125,13 +125,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
     if (oVar.type() != TYPE_ARRAY)
         throw error("DFTBase::scalar: DFTBase output must be vector");
     if (iVar.atype() != (mImpl->inverse
-                         ? mImpl->inverseType.type()
-                         : mImpl->forwardType.type()
+                         ? mImpl->inverseType.atype()
+                         : mImpl->forwardType.atype()
         ))
         throw error("DFTBase::scalar: wrong input type");
     if (oVar.atype() != (mImpl->inverse
-                          ? mImpl->forwardType.type()
-                          : mImpl->inverseType.type()
+                          ? mImpl->forwardType.atype()
+                          : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
 
@@ -157,7 +157,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     }
     else
         if (mImpl->inverse)
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeBackward(
@@ -191,7 +191,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
                 throw error("DFTBase::vector(): unknown type");
             }
         else
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeForward(
-- 
2.43.0


From d4789f28c4141026cb8f084fbe7dc251b7fbc1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 048/136] fix: DFT of an array of the wrong size read and wrote
 beyond it

---
 lube/dft-mkl.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index dcb3844..7b21e90 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -21,6 +21,7 @@ struct libube::DFTImpl
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
 };
@@ -56,34 +57,38 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     // Set the input and output types for a forward transform
     MKL_LONG r;
+    MKL_LONG size = iSize; // It's a variadic function
+    mImpl->iSize = iSize;
     switch (mImpl->forwardType.atype())
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
+        mImpl->iSize = iInverse ? iSize / 2 + 1 : iSize;
         mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
         r = DftiCreateDescriptor(
-            &mImpl->handle, DFTI_SINGLE, DFTI_REAL, 1, iSize
+            &mImpl->handle, DFTI_SINGLE, DFTI_REAL, 1, size
         );
         break;
     case TYPE_DOUBLE:
         mImpl->inverseType = cdouble(0.0, 0.0);
+        mImpl->iSize = iInverse ? iSize / 2 + 1 : iSize;
         mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
         r = DftiCreateDescriptor(
-            &mImpl->handle, DFTI_DOUBLE, DFTI_REAL, 1, iSize
+            &mImpl->handle, DFTI_DOUBLE, DFTI_REAL, 1, size
         );
         break;
     case TYPE_CFLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
         mImpl->oSize = iSize;
         r = DftiCreateDescriptor(
-            &mImpl->handle, DFTI_SINGLE, DFTI_COMPLEX, 1, iSize
+            &mImpl->handle, DFTI_SINGLE, DFTI_COMPLEX, 1, size
         );
         break;
     case TYPE_CDOUBLE:
         mImpl->inverseType = cdouble(0.0, 0.0);
         mImpl->oSize = iSize;
         r = DftiCreateDescriptor(
-            &mImpl->handle, DFTI_DOUBLE, DFTI_COMPLEX, 1, iSize
+            &mImpl->handle, DFTI_DOUBLE, DFTI_COMPLEX, 1, size
         );
         break;
     default:
@@ -134,6 +139,10 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
                           : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
+    if (iVar.shape(-1) != mImpl->iSize)
+        throw error("DFTBase::scalar: wrong input size");
+    if (oVar.shape(-1) != mImpl->oSize)
+        throw error("DFTBase::scalar: wrong output size");
 
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
-- 
2.43.0


From cc9a6353b873179ac952e93b29a143bcc58dd0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 049/136] fix: DFTs leaked if the constructor threw, and freed
 twice if copied

---
 lube/dft-mkl.cpp | 9 ++++++---
 lube/dft.h       | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 7b21e90..e2da91f 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <memory>
 #include <mkl_dfti.h>
 
 #include "lube/dft.h"
@@ -18,6 +19,7 @@
  */
 struct libube::DFTImpl
 {
+    ~DFTImpl() { if (handle) DftiFreeDescriptor(&handle); };
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
@@ -47,7 +49,9 @@ void dftiCheck(MKL_LONG iReturn)
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    // If this throws then the destructor does not run
+    std::unique_ptr<DFTImpl> impl(new DFTImpl);
+    mImpl = impl.get();
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -102,12 +106,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     r = DftiCommitDescriptor(mImpl->handle);
     dftiCheck(r);
+    impl.release();
 }
 
 DFTBase::~DFTBase()
 {
-    MKL_LONG r = DftiFreeDescriptor(&mImpl->handle);
-    dftiCheck(r);
     delete mImpl;
     mImpl = 0;
 }
diff --git a/lube/dft.h b/lube/dft.h
index 45864e9..d959586 100644
--- a/lube/dft.h
+++ b/lube/dft.h
@@ -32,6 +32,8 @@ namespace libube
     public:
         DFTBase(int iSize, bool iInverse, var iForwardType);
         ~DFTBase();
+        DFTBase(const DFTBase&) = delete;
+        DFTBase& operator =(const DFTBase&) = delete;
     protected:
         var alloc(var iVar) const;
         void scalar(const var& iVar, var& oVar) const;
-- 
2.43.0


From 09277d06e6aaf7b9cdf4c511b03c03b8327593f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 050/136] fix: concatenate() of arrays with different numbers
 of dimensions lost data

---
 lube/math.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index bc2de29..a1fb4a2 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1435,6 +1435,8 @@ var Concatenate::alloc(var iVar) const
     int sum = iVar[0].shape(-1);
     for (int v=1; v<iVar.size(); v++)
     {
+        if (iVar[v].dim() != dim)
+            throw error("Concatenate: dimensions differ");
         for (int d=0; d<dim-1; d++)
             if (iVar[v].shape(d) != iVar[0].shape(d))
                 throw error("Concatenate: dimensions differ");
-- 
2.43.0


From 3186935fcd9421f2088ba7615bf5eb93203a3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 051/136] fix: transpose() into an array of the wrong shape
 overran it

---
 lube/transpose-mkl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/transpose-mkl.cpp b/lube/transpose-mkl.cpp
index f2f43b3..69e60dd 100644
--- a/lube/transpose-mkl.cpp
+++ b/lube/transpose-mkl.cpp
@@ -74,6 +74,9 @@ void Transpose::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     int dim = iVar.dim();
     ind rows = iVar.shape(dim-2);
     ind cols = iVar.shape(dim-1);
+    if (!iVar.is(oVar) &&
+        ((oVar.shape(-2) != cols) || (oVar.shape(-1) != rows)))
+        throw error("Transpose::vector(): output is the wrong shape");
     if (iVar.is(oVar))
         // In place transpose
         switch (iVar.atype())
-- 
2.43.0


From e1c59f2ad4638e45b4c2153d93ec020271700a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 052/136] fix: a view with dimensions that overflow an int was
 accepted

---
 lube/var.cpp  | 16 ++++++++++++++--
 lube/view.cpp |  4 +++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 182bcb3..c827c28 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1516,6 +1516,18 @@ var var::view(var iShape, int iOffset)
 }
 
 
+/**
+ * Multiplies two dimensions, neither of which should be negative
+ */
+static int multiply(int iA, int iB)
+{
+    int r;
+    if ((iB < 0) || __builtin_mul_overflow(iA, iB, &r))
+        throw error("view(): dimension is negative, or too large");
+    return r;
+}
+
+
 /**
  * View initialiser function.  Allocates the underlying array as well as the
  * view.
@@ -1524,7 +1536,7 @@ var libube::view(const std::initializer_list<int> iShape, var iType)
 {
     int s = 1;
     for (const int* it=begin(iShape); it!=end(iShape); ++it)
-        s *= *it;
+        s = multiply(s, *it);
     var v = iType ? iType.copy() : 0.0f;
     v.dereference();
     v.array();
@@ -1541,7 +1553,7 @@ var libube::view(var iShape, var iType)
 {
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
-        s *= iShape[i].cast<int>();
+        s = multiply(s, iShape[i].cast<int>());
     var v = iType ? iType.copy() : 0.0f;
     v.dereference();
     v.array();
diff --git a/lube/view.cpp b/lube/view.cpp
index 0c07ef3..dc8cf7b 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -54,13 +54,15 @@ void View::setStrides(int iDim)
         throw error("View::setStrides(): view must have dim > 0");
 
     // The second of each pair is the stride
-    int p = 1;
+    long p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
         if (mData.ip[i*2+1] < 0)
             throw error("View::setStrides(): negative dimension");
         mData.ip[i*2+2] = p;
         p *= mData.ip[i*2+1];
+        if (p > mHeap->size())
+            throw error("View::setStrides(): Array too small for view");
     }
     if (mData.ip[0] < 0)
         throw error("View::setStrides(): negative offset");
-- 
2.43.0


From fa2f72e32ce54579d1e8ec01a9e5a5448ef4f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 053/136] fix: resize() to a negative or huge size, or one that
 cannot be allocated, corrupted the array

---
 lube/heap.cpp | 33 +++++++++++++++++----------------
 lube/var.cpp  |  3 ++-
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 3bebf82..541989e 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -191,7 +191,8 @@ APPEND(cdouble, cdp)
 int allocSize(int iSize)
 {
     const int minSize = 8;
-    assert(iSize >= 0);
+    if ((iSize < 0) || (iSize > (1 << 30)))
+        throw error("allocSize(): size is negative, or too large");
     if (iSize < minSize)
         iSize = minSize;
     if (iSize <= 2)
@@ -226,32 +227,23 @@ void Heap::resize(int iSize)
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
 
-    // Let go of anything that is dropped, otherwise it will reappear if the
-    // array grows again
-    for (int i=iSize; i<mSize; i++)
-        if (mType == TYPE_VAR)
-            mData.vp[i] = nil;
-        else if (mType == TYPE_PAIR)
-            mData.pp[i] = pair();
-    mSize = iSize;
-
-    // strings have an extra '\0'
-    if (mType == TYPE_CHAR)
-        iSize += 1;
+    // strings have an extra '\0'.  Nothing can change until the allocation has
+    // succeeded.
+    int newSize = allocSize((mType == TYPE_CHAR) && (iSize >= 0)
+                            ? iSize + 1 : iSize);
 
     // Unallocated
     if (mCapacity == 0)
     {
         // Allocate
-        mCapacity = allocSize(iSize);
-        alloc(mCapacity);
+        alloc(newSize);
+        mCapacity = newSize;
     }
 
     // Allocated
     else
     {
         // Re-alloc.
-        int newSize = allocSize(iSize);
         if (mCapacity < newSize)
         {
             dataType old = mData;
@@ -270,6 +262,15 @@ void Heap::resize(int iSize)
         }
     }
 
+    // Let go of anything that is dropped, otherwise it will reappear if the
+    // array grows again
+    for (int i=iSize; i<mSize; i++)
+        if (mType == TYPE_VAR)
+            mData.vp[i] = nil;
+        else if (mType == TYPE_PAIR)
+            mData.pp[i] = pair();
+    mSize = iSize;
+
     // Put in the null terminator
     if (mType == TYPE_CHAR)
         mData.cp[mSize] = 0;
diff --git a/lube/var.cpp b/lube/var.cpp
index c827c28..99978ca 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1024,8 +1024,9 @@ var& var::resize(int iSize)
             else
             {
                 var tmp = v;
+                IHeap* h = new Heap(iSize, tmp.mType);
                 v.mType = TYPE_ARRAY;
-                v.attach(new Heap(iSize, tmp.mType));
+                v.attach(h);
                 v.at(0) = tmp;
             }
         }
-- 
2.43.0


From 10fa48f0e52e8e5402975e096ea635e68a7eda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 054/136] fix: array() left an invalid var if the allocation
 failed

---
 lube/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 99978ca..38dfcba 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -997,8 +997,9 @@ var& var::array()
     if (!v.heap())
     {
         var tmp = v;
+        IHeap* h = new Heap(1, tmp.mType);
         v.mType = TYPE_ARRAY;
-        v.attach(new Heap(1, tmp.mType));
+        v.attach(h);
         v.at(0) = tmp;
     }
     return *this;
-- 
2.43.0


From 62f5e815a8b9793884f934f5e079ade537b932b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 055/136] fix: ini values containing a separator were truncated

---
 lube/inifile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 6bcc125..d21ef08 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -58,9 +58,10 @@ var inifile::read(var iFile)
         else
         {
             // It's a 'key [=:] value' line
-            var kv = f.split("=");
+            // The value could also contain the separator
+            var kv = f.split("=", 2);
             if (kv.size() < 2)
-                kv = f.split(":");
+                kv = f.split(":", 2);
             if (kv.size() < 2)
                 throw error("inifile::read(): couldn't split");
             kv[0].strip();
-- 
2.43.0


From 576cdcac4b42f5c30d8cdd20a2f231a73751bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 056/136] fix: ini files were written without keys or sections,
 and write errors were ignored

---
 lube/inifile.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index d21ef08..8f2ba42 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -78,5 +78,23 @@ void inifile::write(var iFile, var iVar)
     if (os.fail())
         throw error("inifile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
-        os << iVar.at(i) << std::endl;
+    {
+        // The global section is the first one as it has an empty name
+        var section = iVar.key(i);
+        if (section.size() > 0)
+            os << "[" << section.str() << "]" << std::endl;
+        var entry = iVar.at(i);
+        for (int j=0; j<entry.size(); j++)
+        {
+            os << entry.key(j).str() << " = ";
+            var value = entry.at(j);
+            if (value && value.heap() && value.atype<char>())
+                os << value.str() << std::endl;
+            else
+                os << value << std::endl;
+        }
+    }
+    os.close();
+    if (os.fail())
+        throw error("inifile::write(): Write failed");
 }
-- 
2.43.0


From c33cf6a2c7b60b227bf0fdafa1d4d4c6fdd424bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 057/136] fix: txt files were written with the lines quoted,
 and write errors were ignored

---
 lube/txtfile.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lube/txtfile.cpp b/lube/txtfile.cpp
index 404ac12..daca7f8 100644
--- a/lube/txtfile.cpp
+++ b/lube/txtfile.cpp
@@ -49,5 +49,14 @@ void txtfile::write(var iFile, var iVar)
     if (os.fail())
         throw error("txtfile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
-        os << iVar.at(i) << std::endl;
+    {
+        var line = iVar.at(i);
+        if (line && line.heap() && line.atype<char>())
+            os << line.str() << std::endl;
+        else
+            os << line << std::endl;
+    }
+    os.close();
+    if (os.fail())
+        throw error("txtfile::write(): Write failed");
 }
-- 
2.43.0


From 5a410b3282269639761b4ec90f1296d34c68859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 058/136] fix: a flag given twice on the command line threw

---
 lube/config.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 18ac363..3fa8a16 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, May 2015
  */
 
+#include <cstring>
 #include <unistd.h>
 
 #include "lube/module.h"
@@ -97,7 +98,10 @@ var Option::parse(int iArgc, char** iArgv)
         var o = (char)get();
         if (o == '?')
             usage(0);
-        var a = mOpts[o] ? arg() : 1;
+        // Whether it has an argument is in the option string; the value of the
+        // option itself changes when it's encountered.
+        const char* p = std::strchr(mOptString.str(), get());
+        var a = (p && (p[1] == ':')) ? arg() : 1;
         mOpts[o] = a;
     }
     return mOpts;
-- 
2.43.0


From 93613f3674712a0740c8f401593f0db56e176efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 059/136] fix: a new Option continued the unfinished options of
 the previous one

---
 lube/config.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 3fa8a16..01a0aca 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -17,7 +17,12 @@ using namespace libube;
 
 Option::Option()
 {
-    optind = 1; // Resets getopt.  This class should be a singleton.
+    // Resets getopt.  This class should be a singleton.
+#ifdef __GLIBC__
+    optind = 0; // Also forgets a cluster of options that was not finished
+#else
+    optind = 1;
+#endif
     mArgc = 0;
     mArgv = 0;
     mOptString = "";
@@ -52,7 +57,7 @@ Option::operator bool()
 // Could we just evaluate the class in an ind context?
 ind Option::index() const
 {
-    return optind;
+    return optind ? optind : 1;
 }
 
 var Option::arg() const
@@ -68,7 +73,8 @@ var Option::arg() const
 
 var Option::args()
 {
-    return var(mArgc-optind, mArgv+optind);
+    int i = index();
+    return var(mArgc-i, mArgv+i);
 };
 
 void Option::operator ()(char iChar, var iDescription, var iDefault)
-- 
2.43.0


From f632e84837353e1593a852c9e78cbf3ce7c455f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 060/136] fix: remove() on a single value did not remove it

---
 lube/var.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 38dfcba..d1f5ff3 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1275,6 +1275,10 @@ var var::remove(int iIndex)
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
 
+    // A single value is not an array that can be resized
+    if (!heap())
+        return shift();
+
     // The result must be a value; a reference would be to the next element
     var r = at(iIndex).copy();
     r.dereference();
-- 
2.43.0


From 16235c771f4e2d6978a4faa9ff2d3a39821a9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 061/136] fix: error backtrace leaked, and assumed every frame
 has a symbol

---
 lube/var.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index d1f5ff3..d6ab076 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1722,6 +1722,12 @@ void error::backTrace(std::ostream& iStream)
         // We want to demangle the function name
         char* paren1 = strchr(symbol[i], '(');
         char* paren2 = strchr(symbol[i], ')');
+        if (!paren1 || !paren2)
+        {
+            // There is only an address
+            iStream << "\n  " << symbol[i];
+            continue;
+        }
         *paren1 = '\0';
         // Just the file, not very helpful
         //iStream << "\n  " << symbol[i] << ":\n    ";
@@ -1729,11 +1735,15 @@ void error::backTrace(std::ostream& iStream)
         {
             // It's an empty name
             iStream << "(undefined)";
-            return;
+            break;
         }
         char* plus = strchr(paren1+1, '+');
-        *plus = '\0';
-        buffer = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (plus)
+            *plus = '\0';
+        // It returns NULL if it fails, in which case the buffer is still ours
+        char* name = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (name)
+            buffer = name;
         iStream << "\n  ";  // Indent
         switch (status)
         {
-- 
2.43.0


From c625791d2a91f18cf58998e673cf902d163093bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 062/136] fix: module leaked the library if it has no factory

---
 lube/module.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lube/module.cpp b/lube/module.cpp
index de518bd..ee008f8 100644
--- a/lube/module.cpp
+++ b/lube/module.cpp
@@ -35,7 +35,12 @@ module::module(var iType)
     // Find the factory function
     *(void **)(&mFactory) = dlsym(mHandle, "factory");
     if ((dle = dlerror()) != NULL)
-        throw error(dle);
+    {
+        // The destructor will not be called, so close the library here
+        error e(dle);
+        dlclose(mHandle);
+        throw e;
+    }
 }
 
 
-- 
2.43.0


From 374cea52b07a5a9bf7c6091c876351c66cf3096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 063/136] fix: copying a regex functor deleted the expression
 twice

---
 lube/regex.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/regex.h b/lube/regex.h
index b533e0a..af9c86f 100644
--- a/lube/regex.h
+++ b/lube/regex.h
@@ -24,6 +24,8 @@ namespace libube
     public:
         RegExFunctor(var iRE);
         virtual ~RegExFunctor();
+        RegExFunctor(const RegExFunctor&) = delete;
+        RegExFunctor& operator =(const RegExFunctor&) = delete;
     protected:
         void* mRE;
     };
-- 
2.43.0


From d25d22e30ef23692936ecfdc6d8c85d8447d8f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 064/136] fix: multichannel sound files used samples as frames

---
 lube/sndfile.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 38ca37b..807643c 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -50,19 +50,27 @@ var sndfile::read(var iFile)
     mAttr["rate"] = sfInfo.samplerate;
     int size = sfInfo.frames * sfInfo.channels;
     var data = 0.0f;
+    data.array();
     data.resize(size);
-    int nGot = sf_readf_float(snd, data.ptr<float>(), size);
-    if (nGot != size)
+    // It is the number of frames, not samples
+    sf_count_t nGot = sf_readf_float(snd, data.ptr<float>(), sfInfo.frames);
+    sf_close(snd);
+    if (nGot != sfInfo.frames)
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
         // In place transpose for channels > 1
         data = data.view({(int)sfInfo.frames, sfInfo.channels}).transpose();
-    sf_close(snd);
     return data;
 }
 
 void sndfile::write(var iFile, var iVar)
 {
+    // The samples, interleaved if there is more than one channel.  This can
+    // throw, so do it first
+    var data = (iVar.dim() > 1) ? transpose(iVar) : iVar;
+    data.ptr<float>();
+    sf_count_t frames = (iVar.dim() > 1) ? iVar.shape(1) : iVar.size();
+
     // Open the file
     SF_INFO sfInfo;
     sfInfo.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_FILE;
@@ -73,15 +81,8 @@ void sndfile::write(var iFile, var iVar)
         throw error("sndfile::write: Failed to open file");
 
     // Write stuff
-    int n;
-    if (iVar.dim() > 1)
-    {
-        var tr = transpose(iVar);
-        n = (int)sf_writef_float(snd, tr.ptr<float>(), tr.size());
-    }
-    else
-        n = (int)sf_writef_float(snd, iVar.ptr<float>(), iVar.size());
+    sf_count_t n = sf_writef_float(snd, data.ptr<float>(), frames);
     sf_close(snd);
-    if (iVar.size() != n)
+    if (n != frames)
         throw error("sndfile::write: Size fuckup");
 }
-- 
2.43.0


From 497dfece6087d77ff957edafbb538fcd4144b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 065/136] fix: xml tags that span lines were run together

---
 lube/xmlfile.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index c2bb25e..10276e7 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -92,8 +92,9 @@ static void DefaultHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    // DOS line ends find their way here.  Why?
-    if ((iLen == 1) && (*iStr == '\r'))
+    // Line ends (including DOS ones) outside the root element find their way
+    // here
+    if ((iLen == 1) && ((*iStr == '\r') || (*iStr == '\n')))
         return;
 
     var str(iLen, iStr);
@@ -177,6 +178,8 @@ var Expat::parse(const char* iFile)
     XML_Status s;
     while (f.getline(is))
     {
+        // The line end separates attributes, so expat must see it
+        f.append("\n");
         s = XML_Parse(mParser, f.str(), f.size(), 0);
         if (!s)
             throw error("xmlfile::parse(): Error!");
@@ -233,6 +236,9 @@ void Expat::endElementHandler(const XML_Char *iName)
 
 void Expat::characterDataHandler(const XML_Char *iStr, int iLen)
 {
+    // Line ends come on their own; they are not part of the data
+    if ((iLen == 1) && (*iStr == '\n'))
+        return;
     var str(iLen, iStr);
     mStack.top()[DATA].push(str);
 }
-- 
2.43.0


From f17c1fd29e07da0c8f6587362f35dfe76b23698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 066/136] fix: gedcom read past the end of missing or truncated
 files

---
 lube/gedfile.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 4619192..52f0736 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -159,8 +159,8 @@ int GEDCOM::readLine()
     if (line.getline(mInStream))
         mField = line.split(" ");
     else
-        std::cout << "Premature end of file" << std::endl;
-        
+        throw error("gedfile::readLine(): Premature end of file");
+
     int level = mField.shift().cast<int>();
     //std::cout << "[" << level << "]" << mField << std::endl;
     return level;
@@ -170,7 +170,7 @@ var GEDCOM::loadFile(var iFileName)
 {
     mInStream.open(iFileName.str());
     if (mInStream.fail())
-        std::cout << "Open failed" << std::endl;
+        throw error("gedfile::loadFile(): Open failed");
     doFile(readLine());
     mInStream.close();
     return mVar;
@@ -391,7 +391,9 @@ int GEDCOM::doFamily(int iLevel, var iFam)
             break;
         case MARR:
             std::cout << "Married" << std::endl;
-            level = doBirth(readLine());
+            level = readLine();
+            if (level > iLevel)
+                level = doBirth(level);
             continue;
         default:
             std::cout << "Family: Unknown tag" << token << std::endl;
-- 
2.43.0


From 30d1523265fd76fda7945120da2d44e612f3d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 067/136] fix: gedcom records without sub-records swallowed the
 next one

---
 lube/gedfile.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 52f0736..ddb9d99 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -203,19 +203,25 @@ void GEDCOM::doFile(int iLevel)
             switch (mTokenMap[token].cast<int>())
             {
             case SUBM:
-                doSubmitter(readLine());
+                level = readLine();
+                if (level > iLevel)
+                    level = doSubmitter(level);
                 break;
             case INDI:
                 entity = individual();
                 mIndividualMap[xref] = mVar["Individual"].size();
                 mVar["Individual"].push(entity);
-                doIndividual(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doIndividual(level, entity);
                 break;
             case FAM:
                 entity = family();
                 mFamilyMap[xref] = mVar["Family"].size();
                 mVar["Family"].push(entity);
-                doFamily(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doFamily(level, entity);
                 break;
             default:
                 std::cout << "File: Unknown tag " << mField << std::endl;
@@ -231,7 +237,9 @@ void GEDCOM::doFile(int iLevel)
             switch (mTokenMap[token].cast<int>())
             {
             case HEAD:
-                level = doHeader(readLine());
+                level = readLine();
+                if (level > iLevel)
+                    level = doHeader(level);
                 continue;
             case TRLR:
                 return;
-- 
2.43.0


From ea0aeefca3896d53ff7d52ee2fce7809bd9b5aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 068/136] fix: reading a second gedcom file appended to the
 first

---
 lube/gedfile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index ddb9d99..d4cce73 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -168,6 +168,11 @@ int GEDCOM::readLine()
 
 var GEDCOM::loadFile(var iFileName)
 {
+    // Don't accumulate what a previous file left behind
+    mVar = nil;
+    mIndividualMap = nil;
+    mFamilyMap = nil;
+    mInStream = std::ifstream();
     mInStream.open(iFileName.str());
     if (mInStream.fail())
         throw error("gedfile::loadFile(): Open failed");
-- 
2.43.0


From 2fb873d9ff9b31216644310ce58a00d35f6ddefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 069/136] fix: assigning an element of a var array to itself

---
 lube/var.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index d6ab076..3e04ff3 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -317,9 +317,12 @@ var& var::operator =(var iVar)
             *mData.hp->ptrcdouble(index) = iVar.cast<cdouble>();
             break;
         case TYPE_VAR:
+            // It could be a reference to this same element
+            iVar.dereference();
             *mData.hp->ptrvar(index) = iVar;
             break;
         case TYPE_PAIR:
+            iVar.dereference();
             mData.hp->ptrpair(index)->val = iVar;
             break;
         default:
-- 
2.43.0


From 7721c246b43459a51f186e63c0c0283b6745a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 070/136] fix: cast of a view of one complex value

---
 lube/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3e04ff3..7608295 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -715,7 +715,8 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
     // A single cdouble is always an array
     ind type = iVar.type();
-    if (iVar.heap() && iVar.atype<cdouble>() && (iVar.size() == 1))
+    if (iVar.heap() && iVar.atype<cdouble>() && !iVar.view() &&
+        (iVar.size() == 1))
         type = TYPE_CDOUBLE;
 
     // Return immediately if no cast is required
-- 
2.43.0


From 3962ba867778da6043320149e838874124c71d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 071/136] fix: broadcast of a view that overlaps the output

---
 lube/func.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 01c09a5..9e31372 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -348,10 +348,11 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     if (iVar1.size() == 0)
         return;
 
-    // iVar2 could be a part of oVar other than the one to be written
-    if (shareHeap(iVar2, oVar) &&
-        ((iVar2.size() != oVar.size()) || (iVar2.offset() != oVar.offset())))
-        iVar2 = iVar2.copy();
+    // iVar2 could be a part of oVar other than the one to be written.  Notice
+    // that to assign to iVar2 would be to write through it.
+    bool overlap = shareHeap(iVar2, oVar) &&
+        ((iVar2.size() != oVar.size()) || (iVar2.offset() != oVar.offset()));
+    var var2 = overlap ? iVar2.copy() : iVar2;
 
     // If it didn't throw, then the arrays are broadcastable
     // In this case, loop over iVar1 with different offsets
@@ -362,7 +363,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     if (stepO * nOps != oVar.size())
         throw error("var::broadcast: output is the wrong size");
     for (int i=0; i<nOps; i++)
-        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
+        vector(iVar1, step1*i, var2, 0, oVar, stepO*i);
 }
 
 
-- 
2.43.0


From 35bb0fa5f79becf13b87b03a9db6163f3a288089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:46 +0000
Subject: [PATCH 072/136] fix: view offset overflow

---
 lube/view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index dc8cf7b..c0411c6 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -127,7 +127,7 @@ int View::offset(int iOffset)
 {
     if (iOffset < 0)
         throw error("View::offset(): negative offset");
-    if (iOffset + size() > mHeap->size())
+    if (iOffset > mHeap->size() - size())
         throw error("View::offset(): offset too large");
     mData.ip[0] = iOffset;
     return iOffset;
-- 
2.43.0


From 28cb6afc6f2ac13427e24b689cf66112b76d33e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 073/136] fix: portable transpose into output of the wrong
 shape

---
 lube/transpose-adhoc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/transpose-adhoc.cpp b/lube/transpose-adhoc.cpp
index 34e36db..195563d 100644
--- a/lube/transpose-adhoc.cpp
+++ b/lube/transpose-adhoc.cpp
@@ -141,6 +141,9 @@ void Transpose::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     int dim = iVar.dim();
     ind rows = iVar.shape(dim-2);
     ind cols = iVar.shape(dim-1);
+    if (!iVar.is(oVar) &&
+        ((oVar.shape(-2) != cols) || (oVar.shape(-1) != rows)))
+        throw error("Transpose::vector(): output is the wrong shape");
     if (iVar.is(oVar))
         // In place transpose
         switch (iVar.atype())
-- 
2.43.0


From cd6231857cd60ef5a3b33ada80dd0c7dc2ecfd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 074/136] fix: swap of arrays with different numbers of
 dimensions

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index a1fb4a2..56c9837 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -341,7 +341,7 @@ void Swap::vector(
 {
     assert(type(iVar1) == TYPE_ARRAY);
     int size = iVar1.shape(-1);
-    if (iVar2.shape(-1) != size)
+    if ((iVar2.dim() != iVar1.dim()) || (iVar2.shape(-1) != size))
         throw error("Swap::vector: dimension mismatch");
     switch(iVar1.atype())
     {
-- 
2.43.0


From 2390ca5de43fcdea828169bab50934ca26e8850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 075/136] fix: transform of a view that overlaps the output

---
 lube/dft-mkl.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index e2da91f..93dc5b9 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -12,6 +12,7 @@
 #include <mkl_dfti.h>
 
 #include "lube/dft.h"
+#include "lube/heap.h"
 
 
 /**
@@ -147,8 +148,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
     if (oVar.shape(-1) != mImpl->oSize)
         throw error("DFTBase::scalar: wrong output size");
 
-    // DFTBase always broadcasts to vector()
-    broadcast(iVar, oVar);
+    // DFTBase always broadcasts to vector().  The transform is not in place, so
+    // an input that is in the same storage as the output must be copied first.
+    IHeap* hI = iVar.heap();
+    IHeap* hO = oVar.heap();
+    bool overlap = !iVar.is(oVar) &&
+        ((hI->view() ? hI->view() : hI) == (hO->view() ? hO->view() : hO));
+    broadcast(overlap ? iVar.copy() : iVar, oVar);
 
     // MKL does not include the divide by N on the inverse
     if (mImpl->inverse)
-- 
2.43.0


From 6d966b60b1b67263524845c357d22c6c31942cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:36 +0000
Subject: [PATCH 076/136] fix: roots and poly into output of the wrong size or
 type

---
 lube/math.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index 56c9837..4734314 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1252,6 +1252,11 @@ void Roots::vector(var iVar, var& oVar) const
 {
     // Form the companion matrix of the polynomial
     int size = oVar.size();
+    if (iVar.size() != size+1)
+        throw error("Roots::vector: output is the wrong size");
+    if ((iVar.atype() == TYPE_FLOAT && oVar.atype() != TYPE_CFLOAT) ||
+        (iVar.atype() == TYPE_DOUBLE && oVar.atype() != TYPE_CDOUBLE))
+        throw error("Roots::vector: output is the wrong type");
     var a = view({size, size}, iVar.at(0));
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
@@ -1371,6 +1376,8 @@ void Poly::vector(var iVar, var& oVar) const
     int order = iVar.shape(-1);
     if (oVar.shape(-1) != order+1)
         throw error("Poly::vector: output is the wrong size");
+    if (oVar.atype() != iVar.atype())
+        throw error("Poly::vector: output is the wrong type");
     switch (iVar.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From 4ff4797922ea53940d72ce081a0747b90caff376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:19 +0000
Subject: [PATCH 077/136] fix: JSON object keys without values and values
 without keys were accepted

---
 lube/json.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 015e9f6..3835347 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -90,19 +90,27 @@ var JSON::doObject(std::istream& iStream)
         switch (peek(iStream))
         {
         case '}':
+            if (key)
+                throw error("JSON key without a value");
             iStream.get();
             return obj;
             break;
         case '"':
+            if (key)
+                throw error("JSON key without a value");
             key = doString(iStream);
             break;
         case ':':
+            if (!key)
+                throw error("JSON value without a key");
             iStream.get();
             obj[key] = doValue(iStream);
+            key = nil;
             break;
         case ',':
+            if (key)
+                throw error("JSON key without a value");
             iStream.get();
-            key = nil;
             break;
         default:
             throw error("Unknown character");
-- 
2.43.0


From 6c315c19726603ab544ff8a71b88a4a5c29ceacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 078/136] fix: string functors recursed for ever on values that
 are not strings

---
 lube/string.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index e1c62ec..72712ba 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -78,6 +78,10 @@ void StringFunctor::string(const var& iVar, var& oVar) const
  */
 void StringFunctor::broadcast(var iVar, var& oVar) const
 {
+    // Anything else would just call back to here
+    if (iVar.defined() && iVar.atype() != TYPE_VAR && iVar.atype() != TYPE_PAIR)
+        throw error("StringFunctor: not a string");
+
     // This could be parallel!
     for (int i=0; i<iVar.size(); i++)
     {
-- 
2.43.0


From ea7e1bf7d98eff65cd77b4ffb92d3db76ebfc785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 079/136] fix: putting back another character on a varstream
 was ignored

---
 lube/stream.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 311746b..38900c6 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -72,9 +72,14 @@ int varbuf::pbackfail(int iInt)
 {
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
-    if (mInd > 0)
-        return traits_type::to_int_type(mVar[--mInd].get<char>());
-    return traits_type::eof();
+    // Putting back something other than what was read is not supported.
+    if (mInd <= 0)
+        return traits_type::eof();
+    int c = traits_type::to_int_type(mVar[mInd-1].get<char>());
+    if ((iInt != traits_type::eof()) && (iInt != c))
+        return traits_type::eof();
+    mInd--;
+    return c;
 }
 
 std::streampos varbuf::seekpos(
-- 
2.43.0


From c2391b7862c55543dd3f3550ac961545e0d6956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 080/136] fix: text file read failure was taken for end of file

---
 lube/txtfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/txtfile.cpp b/lube/txtfile.cpp
index daca7f8..39da89f 100644
--- a/lube/txtfile.cpp
+++ b/lube/txtfile.cpp
@@ -40,6 +40,8 @@ var txtfile::read(var iFile)
     var f;
     while (f.getline(is))
         o.push(f.copy());
+    if (is.bad())
+        throw error("txtfile::read(): Read failed");
     return o;
 }
 
-- 
2.43.0


From 5cd147ac514429ee8e4eeab851d539a48a800738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:56 +0000
Subject: [PATCH 081/136] fix: ini file read failure was taken for end of file

---
 lube/inifile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 8f2ba42..ece8563 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -69,6 +69,8 @@ var inifile::read(var iFile)
             oVar[section][kv[0]] = kv[1];
         }
     }
+    if (is.bad())
+        throw error("inifile::read(): Read failed");
     return oVar;
 }
 
-- 
2.43.0


From b0aeb97562e73d9813c4f6dd5affad15d0c89ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:13 +0000
Subject: [PATCH 082/136] fix: an option object did not see its command line if
 another had parsed one since

---
 lube/config.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 01a0aca..8514dc3 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -15,14 +15,19 @@
 
 using namespace libube;
 
-Option::Option()
+// Resets getopt, so there should only be one command line at a time.
+static void resetGetopt()
 {
-    // Resets getopt.  This class should be a singleton.
 #ifdef __GLIBC__
     optind = 0; // Also forgets a cluster of options that was not finished
 #else
     optind = 1;
 #endif
+}
+
+Option::Option()
+{
+    resetGetopt();
     mArgc = 0;
     mArgv = 0;
     mOptString = "";
@@ -99,6 +104,7 @@ var Option::parse(int iArgc, char** iArgv)
 {
     mArgc = iArgc;
     mArgv = iArgv;
+    resetGetopt();
     while (*this)
     {
         var o = (char)get();
-- 
2.43.0


From c2a3eb18f5a868e6f86e4252f1cf84150a7cecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 083/136] fix: XML files with white space outside the root
 element were rejected

---
 lube/xmlfile.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 10276e7..290a432 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, October 2013
  */
 
+#include <cstring>
 #include <fstream>
 #include <stdexcept>
 #include <lube/module.h>
@@ -92,9 +93,12 @@ static void DefaultHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    // Line ends (including DOS ones) outside the root element find their way
-    // here
-    if ((iLen == 1) && ((*iStr == '\r') || (*iStr == '\n')))
+    // White space (including DOS line ends) outside the root element finds its
+    // way here
+    int i = 0;
+    while ((i < iLen) && std::strchr(" \t\r\n", iStr[i]))
+        i++;
+    if (i == iLen)
         return;
 
     var str(iLen, iStr);
-- 
2.43.0


From eb25a6d825ab497f86f49c47cf23fc65c644c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 084/136] fix: XML documents that end early, or cannot be read,
 were accepted

---
 lube/xmlfile.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 290a432..1459105 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -188,7 +188,11 @@ var Expat::parse(const char* iFile)
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
-    s = XML_Parse(mParser, f.str(), 0, 0);
+    if (is.bad())
+        throw error("xmlfile::read(): Read failed");
+
+    // Tell expat that there is no more
+    s = XML_Parse(mParser, "", 0, 1);
     if (!s)
         throw error("xmlfile::parse(): Error!");
     if (mStack.size() != 0)
-- 
2.43.0


From 307759dc24d3e38ad95aab5e57b3bcd57578df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 085/136] fix: XML write failure was ignored

---
 lube/xmlfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 1459105..27b4e52 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -266,6 +266,9 @@ void XMLWriter::write(const char* iFile, var iVar)
     if (!writeElem(os, iVar))
         throw error("xmlwriter::write(): Top level not element");
     os << std::endl;
+    os.close();
+    if (os.fail())
+        throw error("xmlwriter::write(): Write failed");
 }
 
 bool XMLWriter::writeElem(std::ofstream& iOS, var iVar)
-- 
2.43.0


From df9be46bfc5539934f875aae5068cf5f8b2e2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 086/136] fix: XML attributes lost tabs and line ends, and text
 carriage returns

---
 lube/xmlfile.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 27b4e52..155442d 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -57,7 +57,7 @@ namespace libube
         void write(const char* iFile, var iVar);
     private:
         bool writeElem(std::ofstream& iOS, var iVar);
-        void escape(std::ofstream& iOS, var iVar);
+        void escape(std::ofstream& iOS, var iVar, bool iAttr=false);
     };
 
     void factory(Module** oModule, var iArg)
@@ -286,7 +286,7 @@ bool XMLWriter::writeElem(std::ofstream& iOS, var iVar)
         for (int i=0; i<attr.size(); i++)
         {
             iOS << " " << attr.key(i).str() << "=\"";
-            escape(iOS, attr[i]);
+            escape(iOS, attr[i], true);
             iOS << "\"";
         }
     if (!data)
@@ -302,7 +302,7 @@ bool XMLWriter::writeElem(std::ofstream& iOS, var iVar)
     return true;
 }
 
-void XMLWriter::escape(std::ofstream& iOS, var iVar)
+void XMLWriter::escape(std::ofstream& iOS, var iVar, bool iAttr)
 {
     const char* str = iVar.str();
     for (int i=0; i<iVar.size(); i++)
@@ -323,6 +323,18 @@ void XMLWriter::escape(std::ofstream& iOS, var iVar)
         case '"':
             iOS << "&quot;";
             break;
+        case '\r':
+            // It would be read as a line end
+            iOS << "&#13;";
+            break;
+        case '\t':
+        case '\n':
+            // These would be read as spaces in an attribute
+            if (iAttr)
+            {
+                iOS << "&#" << (int)str[i] << ";";
+                break;
+            }
         default:
             iOS.put(str[i]);
             break;
-- 
2.43.0


From 15206a7ba0fbb933c1083708f9bb6d2693340f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:40 +0000
Subject: [PATCH 087/136] fix: XML reader leaked its parser when a callback
 threw

---
 lube/xmlfile.cpp | 61 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 155442d..6dacff6 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cstring>
+#include <exception>
 #include <fstream>
 #include <stdexcept>
 #include <lube/module.h>
@@ -41,11 +42,14 @@ namespace libube
         void startElementHandler(const XML_Char *iName, const XML_Char **iAtts);
         void endElementHandler(const XML_Char *iName);
         void characterDataHandler(const XML_Char *iStr, int iLen);
+        template <class F> void call(F iHandler);
     private:
         var mVar;            ///< Var to populate during parse
         var mStack;          ///< Parse stack
         XML_Parser mParser;  ///< The expat parser
+        std::exception_ptr mError; ///< Exception thrown by a callback
         var element();
+        void parse(const char* iStr, int iLen, bool iFinal);
     };
 
     /**
@@ -85,6 +89,27 @@ void XMLFile::write(var iFile, var iVar)
 }
 
 
+/**
+ * Call a handler.  Exceptions cannot be thrown through expat, which is C: the
+ * parser would not be freed.  Instead, stop the parser and throw when it
+ * returns.
+ */
+template <class F> void Expat::call(F iHandler)
+{
+    if (mError)
+        return;
+    try
+    {
+        iHandler();
+    }
+    catch (...)
+    {
+        mError = std::current_exception();
+        XML_StopParser(mParser, XML_FALSE);
+    }
+}
+
+
 /**
  * In principle this is unnecessary; in practice it's useful to catch
  * errors (of the form "dude, you forgot to implement...").
@@ -101,9 +126,11 @@ static void DefaultHandler(
     if (i == iLen)
         return;
 
-    var str(iLen, iStr);
-    std::cout << "expat::DefaultHandler: " << str << std::endl;
-    throw error("xmlfile: default handler called");
+    ((Expat*)iUserData)->call([&] {
+        var str(iLen, iStr);
+        std::cout << "expat::DefaultHandler: " << str << std::endl;
+        throw error("xmlfile: default handler called");
+    });
 }
 
 
@@ -126,7 +153,8 @@ static void StartElementHandler(
     void *iUserData, const XML_Char *iName, const XML_Char **iAtts
 )
 {
-    return ((Expat*)iUserData)->startElementHandler(iName, iAtts);
+    Expat* expat = (Expat*)iUserData;
+    expat->call([&] { expat->startElementHandler(iName, iAtts); });
 }
 
 
@@ -134,7 +162,8 @@ static void EndElementHandler(
     void *iUserData, const XML_Char *iName
 )
 {
-    return ((Expat*)iUserData)->endElementHandler(iName);
+    Expat* expat = (Expat*)iUserData;
+    expat->call([&] { expat->endElementHandler(iName); });
 }
 
 
@@ -142,7 +171,8 @@ static void CharacterDataHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    return ((Expat*)iUserData)->characterDataHandler(iStr, iLen);
+    Expat* expat = (Expat*)iUserData;
+    expat->call([&] { expat->characterDataHandler(iStr, iLen); });
 }
 
 
@@ -172,6 +202,16 @@ Expat::~Expat()
 }
 
 
+void Expat::parse(const char* iStr, int iLen, bool iFinal)
+{
+    XML_Status s = XML_Parse(mParser, iStr, iLen, iFinal);
+    if (mError)
+        std::rethrow_exception(mError);
+    if (!s)
+        throw error("xmlfile::parse(): Error!");
+}
+
+
 var Expat::parse(const char* iFile)
 {
     std::ifstream is(iFile, std::ifstream::in);
@@ -179,22 +219,17 @@ var Expat::parse(const char* iFile)
         throw error("xmlfile::read(): Open failed");
 
     var f;
-    XML_Status s;
     while (f.getline(is))
     {
         // The line end separates attributes, so expat must see it
         f.append("\n");
-        s = XML_Parse(mParser, f.str(), f.size(), 0);
-        if (!s)
-            throw error("xmlfile::parse(): Error!");
+        parse(f.str(), f.size(), false);
     }
     if (is.bad())
         throw error("xmlfile::read(): Read failed");
 
     // Tell expat that there is no more
-    s = XML_Parse(mParser, "", 0, 1);
-    if (!s)
-        throw error("xmlfile::parse(): Error!");
+    parse("", 0, true);
     if (mStack.size() != 0)
         throw error("xmlfile::parse(): Short file?");
 
-- 
2.43.0


From 202bdb615e121de7e75ebdfef0459499487b98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:35 +0000
Subject: [PATCH 088/136] fix: a GEDCOM record with an unknown tag ended the
 file

---
 lube/gedfile.cpp | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index d4cce73..57f4a85 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -27,6 +27,7 @@ namespace libube
         var individual();
         var family();
         int readLine();
+        int skip(int iLevel);
         bool knownToken(var iToken);
         void doFile(int iLevel);
         int doHeader(int iLevel);
@@ -166,6 +167,18 @@ int GEDCOM::readLine()
     return level;
 }
 
+/*
+ * Skip the rest of the current record; that's everything at a higher level
+ */
+int GEDCOM::skip(int iLevel)
+{
+    int level;
+    do
+        level = readLine();
+    while (level > iLevel);
+    return level;
+}
+
 var GEDCOM::loadFile(var iFileName)
 {
     // Don't accumulate what a previous file left behind
@@ -202,7 +215,10 @@ void GEDCOM::doFile(int iLevel)
             var token = mField.shift();
 
             if (!knownToken(token))
-                break;
+            {
+                level = skip(iLevel);
+                continue;
+            }
 
             var entity;
             switch (mTokenMap[token].cast<int>())
@@ -230,6 +246,7 @@ void GEDCOM::doFile(int iLevel)
                 break;
             default:
                 std::cout << "File: Unknown tag " << mField << std::endl;
+                level = skip(iLevel);
             }
         }
         else
@@ -238,7 +255,10 @@ void GEDCOM::doFile(int iLevel)
             var token = mField.shift();
 
             if (!knownToken(token))
-                break;
+            {
+                level = skip(iLevel);
+                continue;
+            }
             switch (mTokenMap[token].cast<int>())
             {
             case HEAD:
@@ -250,6 +270,7 @@ void GEDCOM::doFile(int iLevel)
                 return;
             default:
                 std::cout << "File: Unknown tag " << token << std::endl;
+                level = skip(iLevel);
             }
         }
     }
@@ -289,7 +310,10 @@ int GEDCOM::doIndividual(int iLevel, var iInd)
     {
         var token = mField.shift();
         if (!knownToken(token))
-            break;
+        {
+            level = skip(iLevel);
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case NAME:
@@ -340,7 +364,10 @@ int GEDCOM::doBirth(int iLevel)
     {
         var token = mField.shift();
         if (!knownToken(token))
-            break;
+        {
+            level = skip(iLevel);
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case DATE:
@@ -375,7 +402,10 @@ int GEDCOM::doFamily(int iLevel, var iFam)
         var token = mField.shift();
         var indiv;
         if (!knownToken(token))
-            break;
+        {
+            level = skip(iLevel);
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case HUSB:
-- 
2.43.0


From 14e036ffc121b64915b3c44727351fa56a26c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:37 +0000
Subject: [PATCH 089/136] fix: lines below a GEDCOM tag were taken for the
 individual's own

---
 lube/gedfile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 57f4a85..a2a8629 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -350,7 +350,7 @@ int GEDCOM::doIndividual(int iLevel, var iInd)
         default:
             std::cout << "Individual: Unknown tag" << mField << std::endl;
         }
-        level = readLine();
+        level = skip(iLevel);
     }
     while (level >= iLevel);
     return level;
@@ -386,7 +386,7 @@ int GEDCOM::doBirth(int iLevel)
         default:
             std::cout << "Birth: Unknown tag" << token << std::endl;
         }
-        level = readLine();
+        level = skip(iLevel);
     }
     while (level >= iLevel);
     return level;
@@ -441,7 +441,7 @@ int GEDCOM::doFamily(int iLevel, var iFam)
         default:
             std::cout << "Family: Unknown tag" << token << std::endl;
         }
-        level = readLine();
+        level = skip(iLevel);
     }
     while (level >= iLevel);
 
-- 
2.43.0


From 3252f87414ed522a6a4f68b30a26b825a84ca2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:36 +0000
Subject: [PATCH 090/136] fix: looking up a key of a map that is itself an
 element gave an element of the outer array

---
 lube/var.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 7608295..da59101 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -914,7 +914,11 @@ var var::at(var iVar) const
     int index = binary(iVar);
     if ( (index >= size()) || (heap()->key(index) != iVar) )
         return nil;
-    return reference(index);
+
+    // This could itself be a reference
+    var v = *this;
+    v.dereference();
+    return v.reference(index);
 }
 
 
-- 
2.43.0


From 853d15ba2da6277364728e7ad47c38804117b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 091/136] fix: a GEDCOM family that came before its members
 lost them

---
 lube/gedfile.cpp | 58 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index a2a8629..252d118 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -29,6 +29,8 @@ namespace libube
         int readLine();
         int skip(int iLevel);
         bool knownToken(var iToken);
+        var position(var iXRef);
+        void resolve(var iFam);
         void doFile(int iLevel);
         int doHeader(int iLevel);
         int doSubmitter(int iLevel);
@@ -179,6 +181,40 @@ int GEDCOM::skip(int iLevel)
     return level;
 }
 
+/*
+ * Position of an individual, given the cross reference
+ */
+var GEDCOM::position(var iXRef)
+{
+    var pos;
+    if (!iXRef)
+        return pos;
+    if (mIndividualMap)
+        pos = mIndividualMap.at(iXRef);
+    if (!pos)
+        std::cout << "Missing: " << iXRef << std::endl;
+    return pos;
+}
+
+/*
+ * Replace the cross references in a family with positions.  This has to wait
+ * until the end as the family can come before its members.
+ */
+void GEDCOM::resolve(var iFam)
+{
+    iFam["HUSB"] = position(iFam["HUSB"]);
+    iFam["WIFE"] = position(iFam["WIFE"]);
+    var xref = iFam["CHIL"];
+    var chil;
+    for (int i=0; i<xref.size(); i++)
+    {
+        var pos = position(xref[i]);
+        if (pos)
+            chil.push(pos);
+    }
+    iFam["CHIL"] = chil;
+}
+
 var GEDCOM::loadFile(var iFileName)
 {
     // Don't accumulate what a previous file left behind
@@ -191,6 +227,9 @@ var GEDCOM::loadFile(var iFileName)
         throw error("gedfile::loadFile(): Open failed");
     doFile(readLine());
     mInStream.close();
+    var fam = mVar ? mVar.at("Family") : mVar;
+    for (int i=0; i<fam.size(); i++)
+        resolve(fam[i]);
     return mVar;
 }
 
@@ -400,7 +439,6 @@ int GEDCOM::doFamily(int iLevel, var iFam)
     do
     {
         var token = mField.shift();
-        var indiv;
         if (!knownToken(token))
         {
             level = skip(iLevel);
@@ -409,25 +447,13 @@ int GEDCOM::doFamily(int iLevel, var iFam)
         switch (mTokenMap[token].cast<int>())
         {
         case HUSB:
-            indiv = mField.shift();
-            if (!mIndividualMap.at(indiv))
-                std::cout << "Missing: " << indiv << std::endl;
-            else
-                iFam["HUSB"] = mIndividualMap.at(indiv).cast<int>();
+            iFam["HUSB"] = mField.shift();
             break;
         case WIFE:
-            indiv = mField.shift();
-            if (!mIndividualMap.at(indiv))
-                std::cout << "Missing: " << indiv << std::endl;
-            else
-                iFam["WIFE"] = mIndividualMap.at(indiv).cast<int>();
+            iFam["WIFE"] = mField.shift();
             break;
         case CHIL:
-            indiv = mField.shift();
-            if (!mIndividualMap.at(indiv))
-                std::cout << "Missing: " << indiv << std::endl;
-            else
-                iFam["CHIL"].push(mIndividualMap.at(indiv).cast<int>());
+            iFam["CHIL"].push(mField.shift());
             break;
         case DIV:
             std::cout << "Div ?" << std::endl;
-- 
2.43.0


From 447deb0cc45af1c5c36dab5902bdcbba056510c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:55 +0000
Subject: [PATCH 092/136] fix: directory tree did not end where a link led back
 up, and failed where a link led to itself

---
 lube/path.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/lube/path.cpp b/lube/path.cpp
index 089d4b2..6ecdd30 100644
--- a/lube/path.cpp
+++ b/lube/path.cpp
@@ -14,7 +14,9 @@
  */
 
 #include "lube/path.h"
+#include <algorithm>
 #include <filesystem>
+#include <vector>
 
 namespace fs = std::filesystem;
 
@@ -30,7 +32,7 @@ namespace libube
         var tree();
     private:
         fs::path mPath;
-        var tree(fs::path iPath);
+        var tree(fs::path iPath, std::vector<fs::path> iParents);
     };
 
     /** Factory function to create a class */
@@ -88,21 +90,33 @@ var Path::rdir(bool iVal)
 
 var Path::tree()
 {
-    return tree(mPath);
+    return tree(mPath, {});
 }
 
-var Path::tree(std::filesystem::path iPath)
+/**
+ * Links are followed, so a directory can be below itself.  The parents are the
+ * canonical names of the directories above this one; those are not listed
+ * again.
+ */
+var Path::tree(std::filesystem::path iPath, std::vector<fs::path> iParents)
 {
     if (!exists(iPath))
         throw error("tree: path doesn't exist");
 
+    iParents.push_back(fs::canonical(iPath));
     var dir;
     fs::directory_iterator end;
     for (fs::directory_iterator it(iPath); it != end; it++)
-        if (fs::is_directory(*it))
-            dir[it->path().filename().string().c_str()] = tree(*it);
+    {
+        // A link may lead nowhere, which is not an error
+        std::error_code e;
+        bool below = fs::is_directory(*it, e) &&
+            std::count(iParents.begin(), iParents.end(), fs::canonical(*it)) == 0;
+        if (below)
+            dir[it->path().filename().string().c_str()] = tree(*it, iParents);
         else
             dir[it->path().filename().string().c_str()] = nil;
+    }
 
     return dir;
 }
-- 
2.43.0


From bea69d52f1d0f0c959f770d408f55f089504134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 093/136] fix: an edge with a negative vertex wrote out of
 bounds

---
 lube/graph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index 16b1c1c..5972b87 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -49,6 +49,8 @@ using namespace libube;
 void Graph::addEdge(ind iVertex1, ind iVertex2)
 {
     // An edge is some non-trivial thing; it does ot cast to an integer type
+    if ((iVertex1 < 0) || (iVertex2 < 0))
+        throw error("graph::addEdge(): negative vertex");
     std::pair<edge, bool> ret;
     ret = add_edge(iVertex1, iVertex2, mGraph);
 }
-- 
2.43.0


From 20a12d94ad4cf5aaacc51baea9ef607b2efb8080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 094/136] fix: failure to write a graph was not reported

---
 lube/graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index 5972b87..ba072ab 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -84,6 +84,11 @@ private:
 void Graph::writeGraphViz(var iFileName)
 {
     std::ofstream ofs(iFileName.str(), std::ofstream::out);
+    if (ofs.fail())
+        throw error("graph::writeGraphViz(): Open failed");
     LabelWriter lw(mGraph);
     write_graphviz(ofs, mGraph, lw);
+    ofs.close();
+    if (ofs.fail())
+        throw error("graph::writeGraphViz(): Write failed");
 }
-- 
2.43.0


From 6432ab96bec7df48ffe3fa4929d5faa762230f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:04 +0000
Subject: [PATCH 095/136] fix: a sound file with channels but no frames could
 not be written

---
 lube/sndfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 807643c..e669ae7 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -67,7 +67,8 @@ void sndfile::write(var iFile, var iVar)
 {
     // The samples, interleaved if there is more than one channel.  This can
     // throw, so do it first
-    var data = (iVar.dim() > 1) ? transpose(iVar) : iVar;
+    bool inter = (iVar.dim() > 1) && (iVar.size() > 0);
+    var data = inter ? transpose(iVar) : iVar;
     data.ptr<float>();
     sf_count_t frames = (iVar.dim() > 1) ? iVar.shape(1) : iVar.size();
 
-- 
2.43.0


From 2e30f9b6c9fae17611bfae7d832bdcaa1b3c0e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 096/136] fix: an empty view could not have a dimension other
 than its first

---
 lube/view.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index c0411c6..0ff86ff 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <limits>
 
 #include "lube/var.h"
 #include "lube/heap.h"
@@ -61,7 +62,7 @@ void View::setStrides(int iDim)
             throw error("View::setStrides(): negative dimension");
         mData.ip[i*2+2] = p;
         p *= mData.ip[i*2+1];
-        if (p > mHeap->size())
+        if (p > std::numeric_limits<int>::max())
             throw error("View::setStrides(): Array too small for view");
     }
     if (mData.ip[0] < 0)
-- 
2.43.0


From 9fea3da23380ddd39294611b2adf0e704aa01844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:53 +0000
Subject: [PATCH 097/136] fix: samples other than floats, or of too many
 dimensions, were written to a sound file as garbage

---
 lube/sndfile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index e669ae7..f0fedbd 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -65,6 +65,12 @@ var sndfile::read(var iFile)
 
 void sndfile::write(var iFile, var iVar)
 {
+    // The pointers below do not check the type
+    if ((iVar.heap() ? iVar.atype() : iVar.type()) != TYPE_FLOAT)
+        throw error("sndfile::write: Samples are not floats");
+    if (iVar.dim() > 2)
+        throw error("sndfile::write: Too many dimensions");
+
     // The samples, interleaved if there is more than one channel.  This can
     // throw, so do it first
     bool inter = (iVar.dim() > 1) && (iVar.size() > 0);
-- 
2.43.0


From a00f59d499d7877744dee300f54ae30c3a24c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:47 +0000
Subject: [PATCH 098/136] fix: the rate of a sound file was garbage unless it
 was an int

---
 lube/sndfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index f0fedbd..a2e1f4c 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -81,7 +81,7 @@ void sndfile::write(var iFile, var iVar)
     // Open the file
     SF_INFO sfInfo;
     sfInfo.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_FILE;
-    sfInfo.samplerate = mAttr["rate"].get<int>();
+    sfInfo.samplerate = mAttr["rate"].cast<int>();
     sfInfo.channels = iVar.dim() > 1 ? iVar.shape(0) : 1;
     SNDFILE* snd = sf_open(iFile.str(), SFM_WRITE, &sfInfo);
     if (!snd)
-- 
2.43.0


From e616dfeddc32add43042335ae7ddb6b9663fcdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:11 +0000
Subject: [PATCH 099/136] fix: data to be plotted were rounded to six digits

---
 lube/gnuplot.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 303b06e..0385ebe 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cstdio>
+#include <limits>
 #include <stdexcept>
 
 #include <lube/module.h>
@@ -101,6 +102,7 @@ void gnuplot::write(var iFile, var iVar)
                 for (int j=0; j<line.size(); j++)
                 {
                     varstream vs;
+                    vs.precision(std::numeric_limits<double>::max_digits10);
                     vs << line.at(j);
                     puts(vs.str());
                 }
@@ -110,6 +112,7 @@ void gnuplot::write(var iFile, var iVar)
             {
                 // It's a matrix; write it out as a transpose
                 varstream vs;
+                vs.precision(std::numeric_limits<double>::max_digits10);
                 for (int j=0; j<line.shape(1); j++)
                 {
                     for (int i=0; i<line.shape(0); i++)
-- 
2.43.0


From a806ff8c7209a8a5190bd0fb3ca0d531804a3ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 100/136] fix: plotting a matrix overwrote the one before it

---
 lube/gnuplot.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 0385ebe..2c02e5d 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -69,7 +69,6 @@ var gnuplot::read(var iFile)
 
 void gnuplot::write(var iFile, var iVar)
 {
-    var line;
     if (iFile)
     {
         // Default to whatever gnuplot's default is, but if a file is supplied
@@ -83,6 +82,8 @@ void gnuplot::write(var iFile, var iVar)
     // Loop over the input var assuming it's an array of vars
     for (int i=0; i<iVar.size(); i++)
     {
+        // It's a new var each time as assigning to a view writes through it
+        var line;
         line = iVar[i];
         switch (line.atype())
         {
-- 
2.43.0


From caef8c9309659f349a3210612ed1eb26cc9bf67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 101/136] fix: n-ary functors failed where the first operand is
 a single value

---
 lube/func.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 9e31372..8f496f2 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -472,15 +472,16 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
     int nOps = cdim > 0 ? oVar.size() / stepO : 1;
     for (int i=0; i<nOps; i++)
     {
+        // Not push(), which would make a numeric array out of single values
         var iv;
+        iv.resize(iVar.size());
         for (int j=0; j<iVar.size(); j++)
         {
             int dim = iVar[j].dim();
             int step = cdim > 0 ? iVar[j].stride(cdim-1) : 0;
             // Don't take a view of a single value
-            iv.push(
-                dim == cdim ? iVar[j][i] : iVar[j].subview(dim-cdim, step*i)
-            );
+            iv.at(j) =
+                dim == cdim ? iVar[j][i] : iVar[j].subview(dim-cdim, step*i);
         }
         var ov = (dimO == cdim) ? oVar[i] : oVar.subview(dimO-cdim, stepO*i);
         vector(iv, ov);
-- 
2.43.0


From 2aa9a6617d82a95256a170d6d9894fb515999110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:36 +0000
Subject: [PATCH 102/136] fix: ranges did not end at the limits of their type,
 nor if the step is lost in rounding

---
 lube/var.cpp | 64 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index da59101..33a7de2 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -930,6 +930,48 @@ var var::key(int iIndex) const
 }
 
 
+/**
+ * Checks the arguments of a range, and returns the step in the type of the
+ * limits.  The range would not end with a step that is not positive or with an
+ * infinite limit.  Values of different types don't compare as numbers.
+ */
+static var rangeStep(var iLo, var iHi, var iStep)
+{
+    long type = iLo.type();
+    if ((type < TYPE_CHAR) || (type > TYPE_DOUBLE))
+        throw error("range(): limits must be real numbers");
+    if (iLo.type() != iHi.type())
+        throw error("range(): limits must be of the same type");
+    type = iStep.type();
+    if ((type < TYPE_CHAR) || (type > TYPE_DOUBLE))
+        throw error("range(): step must be a real number");
+    var zero = iHi - iHi;
+    var step = zero + iStep;
+    if ((iLo - iLo != zero) || (zero != zero))
+        throw error("range(): limits must be finite");
+    if (!(step > zero))
+        throw error("range(): step must be positive");
+    return step;
+}
+
+
+/**
+ * Steps to the next value of a range.  Returns false if the type doesn't have
+ * one below the limit; throws if the step is lost in rounding.
+ */
+static bool rangeNext(var& ioLo, var iHi, var iStep)
+{
+    long type = ioLo.type();
+    if ((type <= TYPE_LONG) && (ioLo > ioLo - ioLo) && (iHi - ioLo < iStep))
+        return false;
+    var lo = ioLo + iStep;
+    if (!(lo > ioLo))
+        throw error("range(): step is too small");
+    ioLo = lo;
+    return true;
+}
+
+
 /**
  * Generate a range of indeces.  Does pretty much what python's range() does,
  * in that the higher value is not included, and it starts at 0 if the lower
@@ -940,18 +982,13 @@ var libube::irange(var iLo, var iHi, var iStep)
     // It could be a reference; the arithmetic is on the value
     iLo.dereference();
 
-    // It would not end otherwise.  Values of different types don't compare as
-    // numbers, and the step is cast to the type of the limits.
-    var zero = iLo - iLo;
-    if (iLo.type() != iHi.type())
-        throw error("irange(): limits must be of the same type");
-    if (zero + iStep <= zero)
-        throw error("irange(): step must be positive");
+    var step = rangeStep(iLo, iHi, iStep);
     var r;
     while (iLo < iHi)
     {
         r.push(iLo);
-        iLo += iStep;
+        if (!rangeNext(iLo, iHi, step))
+            break;
     }
     return r;
 }
@@ -976,18 +1013,13 @@ var libube::range(var iLo, var iHi, var iStep)
     // It could be a reference; the arithmetic is on the value
     iLo.dereference();
 
-    // It would not end otherwise.  Values of different types don't compare as
-    // numbers, and the step is cast to the type of the limits.
-    var zero = iLo - iLo;
-    if (iLo.type() != iHi.type())
-        throw error("range(): limits must be of the same type");
-    if (zero + iStep <= zero)
-        throw error("range(): step must be positive");
+    var step = rangeStep(iLo, iHi, iStep);
     var r;
     while (iLo <= iHi)
     {
         r.push(iLo);
-        iLo += iStep;
+        if (!rangeNext(iLo, iHi, step))
+            break;
     }
     return r;
 }
-- 
2.43.0


From e70438874fba344ca544054f510bcf3a82fbb2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:52 +0000
Subject: [PATCH 103/136] fix: memory leaked if a view could not be made

---
 lube/view.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index 0ff86ff..efc306f 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -37,14 +37,15 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 /* This is a constructor, not a copy constructor */
 View::View(IHeap* iHeap) : Heap()
 {
-    // If we're given a view, bypass it to get to the underlying heap
-    mHeap = iHeap->view() ? iHeap->view() : reinterpret_cast<Heap*>(iHeap);
-    mHeap->attach();
-
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
     Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
+
+    // If we're given a view, bypass it to get to the underlying heap.  Nothing
+    // would detach it if the above were to throw.
+    mHeap = iHeap->view() ? iHeap->view() : reinterpret_cast<Heap*>(iHeap);
+    mHeap->attach();
 }
 
 
-- 
2.43.0


From 44efff8532a70c5b0b40c105c6cf8ebe103829f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:55 +0000
Subject: [PATCH 104/136] fix: a module instance or library leaked if it could
 not be kept

---
 lube/module.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lube/module.cpp b/lube/module.cpp
index ee008f8..4dbef02 100644
--- a/lube/module.cpp
+++ b/lube/module.cpp
@@ -37,9 +37,15 @@ module::module(var iType)
     if ((dle = dlerror()) != NULL)
     {
         // The destructor will not be called, so close the library here
-        error e(dle);
-        dlclose(mHandle);
-        throw e;
+        try
+        {
+            throw error(dle);
+        }
+        catch (...)
+        {
+            dlclose(mHandle);
+            throw;
+        }
     }
 }
 
@@ -60,11 +66,14 @@ Module& module::create(var iArg)
     // the module that own the instance, and that can be handled fine using a
     // std::vector<Module*>.
 
+    // There has to be somewhere to keep it before it exists
+    mInstance.push_back(0);
+
     // Run the dynamically loaded factory function
     Module* inst = 0;
     (*mFactory)(&inst, iArg);
     if (!inst)
         throw error("Module factory failed");
-    mInstance.push_back(inst);
-    return *(mInstance.back());
+    mInstance.back() = inst;
+    return *inst;
 }
-- 
2.43.0


From 360deb77b75db204e312204c76b34d3b452fdbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:56 +0000
Subject: [PATCH 105/136] fix: a sound file stayed open if reading it failed

---
 lube/sndfile.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index a2e1f4c..23f9087 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -7,6 +7,8 @@
  *   Phil Garner, December 2013
  */
 
+#include <memory>
+
 #include <sndfile.h>
 #include <lube/module.h>
 
@@ -45,6 +47,8 @@ var sndfile::read(var iFile)
     SNDFILE* snd = sf_open(iFile.str(), SFM_READ, &sfInfo);
     if (!snd)
         throw error("sndfile::read: Failed to open file");
+    // Closes the file if anything throws
+    std::unique_ptr<SNDFILE, int (*)(SNDFILE*)> closer(snd, sf_close);
 
     // Read stuff
     mAttr["rate"] = sfInfo.samplerate;
@@ -54,7 +58,7 @@ var sndfile::read(var iFile)
     data.resize(size);
     // It is the number of frames, not samples
     sf_count_t nGot = sf_readf_float(snd, data.ptr<float>(), sfInfo.frames);
-    sf_close(snd);
+    closer.reset();
     if (nGot != sfInfo.frames)
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
-- 
2.43.0


From a85eb256dfd235e228d9c8d6d62e7913f1bcae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:00 +0000
Subject: [PATCH 106/136] fix: references to complex elements, and arrays of
 them, were damaged if memory runs out

---
 lube/var.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 33a7de2..4dafafc 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -155,6 +155,9 @@ namespace libube
         return single<cfloat>(castCFloat(*this));
     }
     template<> cdouble var::cast<cdouble>() const {
+        // Moving elements of an array shouldn't need (or fail for) storage
+        if (defined() && atype<cdouble>() && (size() == 1))
+            return get<cdouble>();
         return single<cdouble>(castCDouble(*this));
     }
 }
@@ -340,13 +343,14 @@ var& var::operator =(var iVar)
     {
         // Not a reference.  Record whether the old value was a heap
         // allocation. If so, detach it after attaching the new value.
+        // Dereferencing can allocate, so nothing changes before it.
+        iVar.dereference();
         IHeap* tmp = ((mType == TYPE_ARRAY) && mData.hp) ? mData.hp : 0;
         mData = iVar.mData;
         mType = iVar.mType;
         attach();
         if (tmp)
             detach(tmp);
-        dereference();
     }
     return *this;
 }
@@ -479,7 +483,7 @@ var::var(const std::initializer_list<var> iList) : var()
 }
 
 
-var::var(const std::initializer_list<int> iShape, var iType)
+var::var(const std::initializer_list<int> iShape, var iType) : var()
 {
     *this = libube::view(iShape, iType);
     for (int i=0; i<size(); i++)
@@ -1475,6 +1479,9 @@ var& var::dereference()
         int index = ~mType;
         ind type = mData.hp->type();
         IHeap* tmp = mData.hp;
+        // Too big to be anything but an array; nothing changes before it exists
+        IHeap* single = (type == TYPE_CDOUBLE)
+            ? new Heap(1, mData.hp->ptrcdouble(index)) : 0;
         mType = type;
         switch (type)
         {
@@ -1498,7 +1505,7 @@ var& var::dereference()
             break;
         case TYPE_CDOUBLE:
             mType = TYPE_ARRAY;
-            attach(new Heap(1, mData.hp->ptrcdouble(index)));
+            attach(single);
             break;
         default:
             throw error("var::dereference(): Unknown type");
-- 
2.43.0


From 1b8097f855a4443aff1f7b20f7784c41ee13acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:03 +0000
Subject: [PATCH 107/136] fix: banded matrix products failed for any bandwidth
 above zero

---
 lube/clapack.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lube/clapack.cpp b/lube/clapack.cpp
index d1065c5..64a5e58 100644
--- a/lube/clapack.cpp
+++ b/lube/clapack.cpp
@@ -188,13 +188,17 @@ namespace blas
     template<>
     void tbmv<float>(long iN, long iK, float* iA, float* ioX)
     {
-        stbmv_(&sL, &sT, &sN, &iN, &iK, iA, &sOne, ioX, &sOne);
+        // The band has iK sub-diagonals, so each row holds iK+1 elements
+        integer lda = iK+1;
+        stbmv_(&sL, &sT, &sN, &iN, &iK, iA, &lda, ioX, &sOne);
     }
 
     template<>
     void tbmv<double>(long iN, long iK, double* iA, double* ioX)
     {
-        dtbmv_(&sL, &sT, &sN, &iN, &iK, iA, &sOne, ioX, &sOne);
+        // The band has iK sub-diagonals, so each row holds iK+1 elements
+        integer lda = iK+1;
+        dtbmv_(&sL, &sT, &sN, &iN, &iK, iA, &lda, ioX, &sOne);
     }
 
     template<>
@@ -203,8 +207,10 @@ namespace blas
         float iAlpha, float* iA, float* iX, float iBeta, float* ioY
     )
     {
+        // The band has iK sub-diagonals, so each row holds iK+1 elements
+        integer lda = iK+1;
         ssbmv_(&sL, &iN, &iK,
-               &iAlpha, iA, &sOne, iX, &sOne, &iBeta, ioY, &sOne);
+               &iAlpha, iA, &lda, iX, &sOne, &iBeta, ioY, &sOne);
     }
 
     template<>
@@ -213,8 +219,10 @@ namespace blas
         double iAlpha, double* iA, double* iX, double iBeta, double* ioY
     )
     {
+        // The band has iK sub-diagonals, so each row holds iK+1 elements
+        integer lda = iK+1;
         dsbmv_(&sL, &iN, &iK,
-               &iAlpha, iA, &sOne, iX, &sOne, &iBeta, ioY, &sOne);
+               &iAlpha, iA, &lda, iX, &sOne, &iBeta, ioY, &sOne);
     }
 
     template<>
-- 
2.43.0


From 69490b0e788fbe6d037231a904521bf36d34e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:05 +0000
Subject: [PATCH 108/136] fix: gemm failed when a dimension is zero

---
 lube/clapack.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lube/clapack.cpp b/lube/clapack.cpp
index 64a5e58..3dbfb84 100644
--- a/lube/clapack.cpp
+++ b/lube/clapack.cpp
@@ -232,10 +232,12 @@ namespace blas
         float iBeta, float* ioC
     )
     {
+        integer ldn = std::max(1L,iN);
+        integer ldk = std::max(1L,iK);
         sgemm_(&sN, &sN,
                &iN, &iM, &iK,
-               &iAlpha, iB, &iN, iA, &iK,
-               &iBeta, ioC, &iN);
+               &iAlpha, iB, &ldn, iA, &ldk,
+               &iBeta, ioC, &ldn);
     }
     template<>
     void gemm<double>(
@@ -244,10 +246,12 @@ namespace blas
         double iBeta, double* ioC
     )
     {
+        integer ldn = std::max(1L,iN);
+        integer ldk = std::max(1L,iK);
         dgemm_(&sN, &sN,
                &iN, &iM, &iK,
-               &iAlpha, iB, &iN, iA, &iK,
-               &iBeta, ioC, &iN);
+               &iAlpha, iB, &ldn, iA, &ldk,
+               &iBeta, ioC, &ldn);
     }
 }
 
-- 
2.43.0


From f15f99077fb58a74df1ff2695d32c9c901c169b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:07 +0000
Subject: [PATCH 109/136] fix: the eigenvalue wrappers returned undefined
 status, and failed for size zero

---
 lube/clapack.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/lube/clapack.cpp b/lube/clapack.cpp
index 3dbfb84..4d11ba0 100644
--- a/lube/clapack.cpp
+++ b/lube/clapack.cpp
@@ -263,18 +263,20 @@ namespace lapack
         long n, float* a, float* wr, float* wi, float* vs
     )
     {
-        long sdim;
-        long info;
+        long sdim = 0;
+        long info = 0;
+        long lda = std::max(1L,n);
         long lwork = std::max(1L,n*3);
         float work[lwork];
         sgees_(
             (vs ? &sV : &sN),
             &sN, 0,
-            &n, a, &n, &sdim, wr, wi,
-            (vs ? vs : 0), &n,
+            &n, a, &lda, &sdim, wr, wi,
+            (vs ? vs : 0), &lda,
             work, &lwork, 0, &info
         );
-        return info;
+        // The library may only write 32 bits
+        return static_cast<int>(info);
     }
 
     template<>
@@ -282,18 +284,20 @@ namespace lapack
         long n, float* a, float* wr, float* wi, float* vl, float* vr
     )
     {
-        long info;
+        long info = 0;
+        long lda = std::max(1L,n);
         long lwork = std::max(1L,n*4);
         float work[lwork];
         sgeev_(
             (vr ? &sV : &sN),
             (vl ? &sV : &sN),
-            &n, a, &n, wr, wi,
-            (vr ? vr : 0), &n,
-            (vl ? vl : 0), &n,
+            &n, a, &lda, wr, wi,
+            (vr ? vr : 0), &lda,
+            (vl ? vl : 0), &lda,
             work, &lwork, &info
         );
-        return info;
+        // The library may only write 32 bits
+        return static_cast<int>(info);
     }
 
     template<>
@@ -301,17 +305,19 @@ namespace lapack
         long n, double* a, double* wr, double* wi, double* vl, double* vr
     )
     {
-        long info;
+        long info = 0;
+        long lda = std::max(1L,n);
         long lwork = std::max(1L,n*4);
         double work[lwork];
         dgeev_(
             (vr ? &sV : &sN),
             (vl ? &sV : &sN),
-            &n, a, &n, wr, wi,
-            (vr ? vr : 0), &n,
-            (vl ? vl : 0), &n,
+            &n, a, &lda, wr, wi,
+            (vr ? vr : 0), &lda,
+            (vl ? vl : 0), &lda,
             work, &lwork, &info
         );
-        return info;
+        // The library may only write 32 bits
+        return static_cast<int>(info);
     }
 }
-- 
2.43.0


From 7b4b0faf6faea53cea8a4f4671d26a7bdec39065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:45 +0000
Subject: [PATCH 110/136] fix: the length of strings with overlong forms,
 surrogates or values that are too large

---
 lube/utf8.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lube/utf8.cpp b/lube/utf8.cpp
index 78c4172..bf06fe2 100644
--- a/lube/utf8.cpp
+++ b/lube/utf8.cpp
@@ -66,6 +66,15 @@ int utf8len(const char* iStr)
         if ((iStr[i] & 0xC0) != 0x80) // 10xxxxxx
             return 0;
 
+    // Overlong forms, surrogates, and values beyond 0x10FFFF are not valid
+    unsigned char b0 = iStr[0];
+    unsigned char b1 = iStr[1];
+    if ((b0 < 0xC2) ||
+        (b0 == 0xE0 && b1 < 0xA0) || (b0 == 0xED && b1 >= 0xA0) ||
+        (b0 == 0xF0 && b1 < 0x90) || (b0 == 0xF4 && b1 >= 0x90) ||
+        (b0 > 0xF4))
+        return 0;
+
     // It's UTF-8
     return len;
 }
-- 
2.43.0


From bd084d4643b5c6395172809fd2727033964ea588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:41 +0000
Subject: [PATCH 111/136] fix: a single value could not be resized to nothing,
 nor initialised as no copies of one

---
 lube/var.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 4dafafc..b20e01f 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1058,7 +1058,7 @@ var& var::resize(int iSize)
     if (!v.heap())
     {
         // Not allocated
-        if (((v.type() != TYPE_ARRAY) && (iSize > 1)) ||
+        if (((v.type() != TYPE_ARRAY) && (iSize != 1)) ||
             (v.type() == TYPE_ARRAY) )
         {
             // Need to allocate
@@ -1072,7 +1072,8 @@ var& var::resize(int iSize)
                 IHeap* h = new Heap(iSize, tmp.mType);
                 v.mType = TYPE_ARRAY;
                 v.attach(h);
-                v.at(0) = tmp;
+                if (iSize > 0)
+                    v.at(0) = tmp;
             }
         }
     }
-- 
2.43.0


From 9a6394d04273938dca1667f2bb2475c53f2773fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:51 +0000
Subject: [PATCH 112/136] fix: atypeStr() of an undefined var dereferenced a
 null pointer

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index b20e01f..85d8972 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1160,6 +1160,8 @@ var var::atypeStr() const
 {
     if (type() == TYPE_ARRAY)
     {
+        if (!defined())
+            throw error("var::atypeStr(): Undefined");
         varstream s;
         s << "array[" << libube::typeStr(heap()->type()) << "]";
         return var(s);
-- 
2.43.0


From 58cc69e5f9fe048d50e5a66c5f4e2d96583246e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:02 +0000
Subject: [PATCH 113/136] fix: stride() of a negative dimension gave the offset

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 85d8972..a97f892 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1696,6 +1696,8 @@ int var::shape(int iDim) const
 
 int var::stride(int iDim) const
 {
+    if (iDim < 0)
+        iDim = dim() + iDim;
     if (view())
         return heap()->stride(iDim);
     if (iDim > 0)
-- 
2.43.0


From e89355300aeba27a1effa12031110689e8aad241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:11 +0000
Subject: [PATCH 114/136] fix: an array could not be initialised with copies of
 a cdouble

---
 lube/var.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index a97f892..5f3ddfa 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -467,9 +467,12 @@ var::var(int iSize, const int* iData) : var()
 
 var::var(int iSize, var iVar) : var()
 {
-    if (iVar.type() == TYPE_ARRAY)
+    // A cdouble is always an array, but then the new one needs its own
+    iVar.dereference();
+    if ((iVar.type() == TYPE_ARRAY) &&
+        (!iVar || iVar.view() || !iVar.atype<cdouble>() || (iVar.size() != 1)))
         throw error("initialise ctor: cannot init from array");
-    *this = iVar;
+    *this = iVar.copy();
     resize(iSize);
     for (int i=1; i<iSize; i++)
         at(i) = iVar;
-- 
2.43.0


From 3bc3aee92331b7c10186f9eff81d801aa08c11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:34 +0000
Subject: [PATCH 115/136] fix: inserting a value that cannot be cast into a
 single one threw, but extended it anyway

---
 lube/var.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 5f3ddfa..321ff0b 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1303,11 +1303,16 @@ var& var::insert(var iVar, int iIndex)
     {
         // It's a fundamental type, insert the whole array.  Take the values
         // first: it could be this array, or something that can't be cast.
+        // A single value is cast to as an array of one.
+        var a = *this;
+        a.dereference();
+        if (a)
+            a.array();
         int n = iVar.size();
         var v;
         v.resize(n);
         for (int i=0; i<n; i++)
-            v.at(i) = heap() ? heap()->element(iVar.at(i)) : iVar.at(i);
+            v.at(i) = a ? a.heap()->element(iVar.at(i)) : iVar.at(i);
         resize(size()+n);
         for (int i=size()-1; i>iIndex+n-1; i--)
             at(i) = at(i-n);
-- 
2.43.0


From e56fa34feadcae1443e76101d5da52b3b47d4d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:16 +0000
Subject: [PATCH 116/136] fix: unshift() that throws left a single value as an
 array

---
 lube/var.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 321ff0b..54b9096 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1370,9 +1370,17 @@ var& var::unshift(var iVar)
         return *this;
     }
 
-    if (!heap())
-        array();
-    heap()->unshift(iVar);
+    if (heap())
+        heap()->unshift(iVar);
+    else
+    {
+        // It might not be possible, so doesn't become an array until after
+        var a = *this;
+        a.dereference();
+        a.array();
+        a.heap()->unshift(iVar);
+        dereference() = a;
+    }
     return *this;
 }
 
-- 
2.43.0


From 5829a965f646c620f06b62c7a36fa5cbde07f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:46 +0000
Subject: [PATCH 117/136] fix: negative dimensions beyond the first were
 accepted by shape() and stride()

---
 lube/var.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 54b9096..28832d4 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1704,8 +1704,8 @@ int var::shape(int iDim) const
         iDim = dim() + iDim;
     if (view())
         return heap()->shape(iDim);
-    if (iDim > 0)
-        throw error("var::shape(): dimension too large");
+    if (iDim != 0)
+        throw error("var::shape(): dimension out of bounds");
     return size();
 }
 
@@ -1714,10 +1714,12 @@ int var::stride(int iDim) const
 {
     if (iDim < 0)
         iDim = dim() + iDim;
+    if (iDim < 0)
+        throw error("var::stride(): dimension out of bounds");
     if (view())
         return heap()->stride(iDim);
-    if (iDim > 0)
-        throw error("var::stride(): dimension too large");
+    if (iDim != 0)
+        throw error("var::stride(): dimension out of bounds");
     return 1;
 }
 
-- 
2.43.0


From 759dfe9ce41ebeadc32fd763131dddd519c50019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 118/136] fix: assign arrays of vars through a view rather than
 throw

---
 lube/var.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 28832d4..a0ac9bd 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -337,7 +337,15 @@ var& var::operator =(var iVar)
     {
         // Not a reference, but we are a copyable view.
         // This is the broadcastable set(); could use Heap::copy() instead?
-        set(*this, iVar, *this);
+        if (mData.hp->type() == TYPE_VAR)
+        {
+            // It's arithmetic; it doesn't know about var.  iVar could overlap
+            var tmp = iVar.copy();
+            for (int i=0; i<size(); i++)
+                at(i) = tmp.at(i);
+        }
+        else
+            set(*this, iVar, *this);
     }
     else
     {
-- 
2.43.0


From 6fd2a092ac6b167c611462c9ab01b1a80307f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:02 +0000
Subject: [PATCH 119/136] fix: append part of an array to itself

---
 lube/heap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 541989e..4f24131 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstring>
+#include <functional>
 #include <stdexcept>
 
 #include "lube/var.h"
@@ -174,8 +175,15 @@ var Heap::derefInt(ind iIndex, int iArrayIndex)
 #define APPEND(T, P)                                \
     void Heap::append(int iSize, const T* iData)    \
     {                                               \
+        /* It could be a part of this array, which could move */ \
+        std::less<const T*> lt;                     \
+        bool own = mCapacity && !lt(iData, mData.P) && \
+            lt(iData, mData.P + mCapacity);         \
+        int offset = own ? iData - mData.P : 0;     \
         int beg = mSize;                            \
         resize(mSize + iSize);                      \
+        if (own)                                    \
+            iData = mData.P + offset;               \
         for (int i=0; i<iSize; i++)                 \
             mData.P[beg+i] = iData[i];              \
     }
-- 
2.43.0


From 4e12786c2ee0afdca0aa025a8f4e54b81b2d1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:20 +0000
Subject: [PATCH 120/136] fix: sums of the magnitude of a single complex number
 wrote beyond the result

---
 lube/math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 4734314..292f0a2 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1034,10 +1034,10 @@ void ASum::scalar(const var& iVar, var& oVar) const
         *oVar.ptr<double>() = std::abs(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = std::abs(iVar.get<cfloat>());
+        *oVar.ptr<float>() = std::abs(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = std::abs(iVar.get<cdouble>());
+        *oVar.ptr<double>() = std::abs(iVar.get<cdouble>());
         break;
     default:
         throw error("ASum::operator(): Unknown type");
-- 
2.43.0


From 6edbc88d0e80729121e8daf4438d6f8fb9d55ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:54 +0000
Subject: [PATCH 121/136] fix: copy() of a number in an array was still a
 reference to it

---
 lube/var.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index a0ac9bd..2179712 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -627,12 +627,16 @@ bool var::operator <(var iVar) const
  */
 var var::copy(bool iAllocOnly) const
 {
+    var r;
+
     // Deref and return if there's no heap
     if (!heap())
-        return *this;
+    {
+        r = *this;
+        return r;
+    }
 
     // It's a heap
-    var r;
     if (view())
         r.attach(new View(*heap(), iAllocOnly));
     else
-- 
2.43.0


From 5fd6c33dae52424362a4edab27eaed694b898887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:00 +0000
Subject: [PATCH 122/136] fix: str() of an array that is not a string gave its
 memory as text, so that split() and others read beyond it

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 2179712..7e02670 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -209,6 +209,8 @@ const char* var::str() const
     // The static is a cheap trick to avoid thinking about references for the
     // moment
     static char z = 0;
+    if (heap() && !atype<char>())
+        throw error("var::str(): Not a string");
     return heap() ? heap()->ptrchar() : &z;
 }
 
-- 
2.43.0


From c8237ab67e6e717c434876a331d6a8369167c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:44 +0000
Subject: [PATCH 123/136] fix: concatenating what is a single value in an array
 made it an array there

---
 lube/func.cpp | 4 ++++
 lube/math.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index 8f496f2..061eb5c 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -373,6 +373,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 var NaryFunctor::alloc(var iVar) const
 {
     var r;
+    iVar.dereference();
     if (iVar)
         r = iVar[0].copy(true);
     else
@@ -444,6 +445,9 @@ void NaryFunctor::vector(var iVar, var& oVar) const
  */
 void NaryFunctor::broadcast(var iVar, var& oVar) const
 {
+    // Indexing a single value in an array would make it an array there
+    iVar.dereference();
+
     // Check that the arrays are broadcastable
     for (int i=1; i<iVar.size(); i++)
         if (iVar[0].atype() != iVar[i].atype())
diff --git a/lube/math.cpp b/lube/math.cpp
index 292f0a2..fadf395 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1437,6 +1437,9 @@ void Sort::vector(var iVar, var& oVar) const
 
 var Concatenate::alloc(var iVar) const
 {
+    // Indexing a single value in an array would make it an array there
+    iVar.dereference();
+
     // Basically check that the shapes match
     int dim = iVar[0].dim();
     int sum = iVar[0].shape(-1);
-- 
2.43.0


From 1de36de6114cf0638274a6585995025a2342dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:51 +0000
Subject: [PATCH 124/136] fix: changing an element that is a single value in
 place, e.g. by resize(), left the reference to it stale, and could lose the
 change

---
 lube/var.cpp | 27 +++++++++++++++++++++++----
 lube/var.h   |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 7e02670..699580e 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -828,7 +828,7 @@ var var::operator [](int iIndex)
  */
 var var::operator [](var iVar)
 {
-    var& v = dereference();
+    var& v = target();
     if (!v)
     {
         // A kind of constructor
@@ -1054,7 +1054,7 @@ var libube::range(var iHi)
 
 var& var::array()
 {
-    var& v = dereference();
+    var& v = target();
     if (!v.heap())
     {
         var tmp = v;
@@ -1071,7 +1071,7 @@ var& var::resize(int iSize)
 {
     VDEBUG(std::cout << "var::resize(" << iSize << ")" << std::endl);
     assert(iSize >= 0);
-    var& v = dereference();
+    var& v = target();
     if (!v.heap())
     {
         // Not allocated
@@ -1393,7 +1393,7 @@ var& var::unshift(var iVar)
         a.dereference();
         a.array();
         a.heap()->unshift(iVar);
-        dereference() = a;
+        target() = a;
     }
     return *this;
 }
@@ -1549,6 +1549,25 @@ var& var::dereference()
 }
 
 
+/**
+ * What a method that changes the var in place should change.
+ *
+ * For a reference to another var, that's the other var, and this remains a
+ * reference to it.  A reference to a number in an array can't be changed to
+ * anything other than a number, so it is dereferenced.
+ */
+var& var::target()
+{
+    if (reference())
+    {
+        var& r = varderef();
+        if (&r != this)
+            return r;
+    }
+    return dereference();
+}
+
+
 /**
  * Binary search
  */
diff --git a/lube/var.h b/lube/var.h
index 064a84d..37dec6b 100644
--- a/lube/var.h
+++ b/lube/var.h
@@ -223,6 +223,7 @@ namespace libube
         // Methods
         template<class T> T& data();
         var& varderef();
+        var& target();
         bool reference() const { return !mType; };
         var reference(int iIndex) const;
         int attach(IHeap* iHeap=0);
-- 
2.43.0


From c9d9d554e4dc9bbb003bfd3de2514692d7499af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:59 +0000
Subject: [PATCH 125/136] fix: view() with a shape that is a single value in an
 array made it an array there

---
 lube/var.cpp  | 2 +-
 lube/view.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 699580e..5ae4d1b 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1658,7 +1658,7 @@ var libube::view(var iShape, var iType)
 {
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
-        s = multiply(s, iShape[i].cast<int>());
+        s = multiply(s, iShape.at(i).cast<int>());
     var v = iType ? iType.copy() : 0.0f;
     v.dereference();
     v.array();
diff --git a/lube/view.cpp b/lube/view.cpp
index efc306f..3051426 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -109,7 +109,7 @@ View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
     // First entry of each subsequent pair is the dimension
     for (int i=0; i<dim; i++)
     {
-        mData.ip[i*2+1] = iShape[i].get<int>();
+        mData.ip[i*2+1] = iShape.at(i).get<int>();
         mData.ip[i*2+2] = 0;
     }
 
-- 
2.43.0


From 67d58446f6a3fc1476d842d6422fb8d80bbb7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:44 +0000
Subject: [PATCH 126/136] fix: view() with a shape that is not of ints read
 beyond it

---
 lube/view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/view.cpp b/lube/view.cpp
index 3051426..9368dde 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -109,7 +109,7 @@ View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
     // First entry of each subsequent pair is the dimension
     for (int i=0; i<dim; i++)
     {
-        mData.ip[i*2+1] = iShape.at(i).get<int>();
+        mData.ip[i*2+1] = iShape.at(i).cast<int>();
         mData.ip[i*2+2] = 0;
     }
 
-- 
2.43.0


From b44632b30515310ef0a712371aa895e41c8e0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:21 +0000
Subject: [PATCH 127/136] fix: concatenate of arrays that aren't of the type of
 the output read beyond them

---
 lube/math.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index fadf395..1f5f7f9 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1464,6 +1464,10 @@ var Concatenate::alloc(var iVar) const
 
 void Concatenate::vector(var iVar, var& oVar) const
 {
+    for (int i=0; i<iVar.size(); i++)
+        if (iVar[i].atype() != oVar.atype())
+            throw error("Concatenate::vector: types must match");
+
     int sum = 0;
     switch(oVar.atype())
     {
-- 
2.43.0


From 246334545b5d243a35cdda059be5996d28c3ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:27 +0000
Subject: [PATCH 128/136] fix: a GEDCOM file that couldn't be read was left
 open

---
 lube/gedfile.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 252d118..c888c1f 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -225,7 +225,16 @@ var GEDCOM::loadFile(var iFileName)
     mInStream.open(iFileName.str());
     if (mInStream.fail())
         throw error("gedfile::loadFile(): Open failed");
-    doFile(readLine());
+    try
+    {
+        doFile(readLine());
+    }
+    catch (...)
+    {
+        // Don't leave it open until the next one
+        mInStream.close();
+        throw;
+    }
     mInStream.close();
     var fam = mVar ? mVar.at("Family") : mVar;
     for (int i=0; i<fam.size(); i++)
-- 
2.43.0


From a3d6a2afe1e502fba235dceee5f432c79949c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:29 +0000
Subject: [PATCH 129/136] fix: sound files that could only partly be read or
 written were taken to be whole

---
 lube/sndfile.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 23f9087..e62bb54 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -49,6 +49,8 @@ var sndfile::read(var iFile)
         throw error("sndfile::read: Failed to open file");
     // Closes the file if anything throws
     std::unique_ptr<SNDFILE, int (*)(SNDFILE*)> closer(snd, sf_close);
+    if (sf_error(snd))
+        throw error("sndfile::read: Failed to read header");
 
     // Read stuff
     mAttr["rate"] = sfInfo.samplerate;
@@ -58,8 +60,9 @@ var sndfile::read(var iFile)
     data.resize(size);
     // It is the number of frames, not samples
     sf_count_t nGot = sf_readf_float(snd, data.ptr<float>(), sfInfo.frames);
+    bool failed = sf_error(snd);
     closer.reset();
-    if (nGot != sfInfo.frames)
+    if (failed || nGot != sfInfo.frames)
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
         // In place transpose for channels > 1
@@ -93,7 +96,10 @@ void sndfile::write(var iFile, var iVar)
 
     // Write stuff
     sf_count_t n = sf_writef_float(snd, data.ptr<float>(), frames);
-    sf_close(snd);
-    if (n != frames)
+    // The header is not complete until it's closed
+    bool failed = sf_error(snd);
+    if (sf_close(snd))
+        failed = true;
+    if (failed || n != frames)
         throw error("sndfile::write: Size fuckup");
 }
-- 
2.43.0


From 127f764cdc89aadfc70ca171728f4727009c6b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:43 +0000
Subject: [PATCH 130/136] fix: plots that couldn't be sent to gnuplot were
 taken to be, as that wasn't tried until too late

---
 lube/gnuplot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 2c02e5d..38021ec 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -132,4 +132,8 @@ void gnuplot::write(var iFile, var iVar)
             throw error("gnuplot::write(): Unknown data type");
         }
     }
+
+    // It would be too late to throw after this
+    if (std::fflush(mStream))
+        throw error("gnuplot::write(): Failed to write");
 }
-- 
2.43.0


From 01ba33c7d9547e4bcc6add9cb1439ff4b24781b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:38 +0000
Subject: [PATCH 131/136] fix: the help text dereferenced a command line that
 had not been given yet

---
 lube/config.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 8514dc3..7e5d9b0 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -122,7 +122,9 @@ var Option::parse(int iArgc, char** iArgv)
 void Option::usage()
 {
     std::cout
-        << mName.str() << "\n" << "Usage: " << mArgv[0];
+        << mName.str() << "\n" << "Usage:";
+    if (mArgv && mArgv[0])
+        std::cout << " " << mArgv[0];
     if (mOptString != "")
         std::cout << " -[" << mOptString.str() << "]";
     std::cout << " [args] (see 'man 3 getopt')\n";
-- 
2.43.0


From 9f1c406a112294306fb45819d9446ff504579c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:05 +0000
Subject: [PATCH 132/136] fix: what follows a zero byte in a string was lost by
 split(), regular expressions, and text and ini files

---
 lube/inifile.cpp |  2 +-
 lube/string.cpp  | 51 +++++++++++++++++++++++++++++-------------------
 lube/txtfile.cpp |  2 +-
 3 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index ece8563..f57f491 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -91,7 +91,7 @@ void inifile::write(var iFile, var iVar)
             os << entry.key(j).str() << " = ";
             var value = entry.at(j);
             if (value && value.heap() && value.atype<char>())
-                os << value.str() << std::endl;
+                os.write(value.str(), value.size()) << std::endl;
             else
                 os << value << std::endl;
         }
diff --git a/lube/string.cpp b/lube/string.cpp
index 72712ba..ebd7145 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <stdexcept>
+#include <algorithm>
 #include <locale>
 #include <cassert>
 #include <cstring>
@@ -91,9 +92,17 @@ void StringFunctor::broadcast(var iVar, var& oVar) const
 }
 
 
+/**
+ * The end of what str() gives; the string can include zero bytes
+ */
+static const char* strEnd(const var& iVar)
+{
+    return iVar.str() + (iVar.heap() ? iVar.size() : 0);
+}
+
 RegExFunctor::RegExFunctor(var iRE)
 {
-    mRE = new boost::regex(iRE.str());
+    mRE = new boost::regex(iRE.str(), strEnd(iRE));
 }
 
 RegExFunctor::~RegExFunctor()
@@ -158,9 +167,10 @@ var var::split(const char* iStr, int iMax) const
     if (strLen == 0)
         throw error("var::split(): Empty separator");
     const char* source = this->str();
+    const char* end = source + (heap() ? size() : 0);
     const char* p;
     if (iMax != 1)
-        while ( (p = std::strstr(source, iStr)) )
+        while ( (p = std::search(source, end, iStr, iStr+strLen)) != end )
         {
             int len = p-source;
             var s(len, source);
@@ -170,7 +180,7 @@ var var::split(const char* iStr, int iMax) const
             if (iMax && (r.size() >= iMax-1))
                 break;
         }
-    r.push(source);
+    r.push(var(end-source, source));
 
     return r;
 }
@@ -185,18 +195,18 @@ var var::split(const char* iStr, int iMax) const
 var var::split(int iMax) const
 {
     var r;
-    const char* source = this->str();
-    const char* p = source;
-    while (std::isspace(*p)) { ++p; }
-    if ((iMax == 1) && *p)
+    const char* p = this->str();
+    const char* last = p + (heap() ? size() : 0);
+    while ((p != last) && std::isspace(*p)) { ++p; }
+    if ((iMax == 1) && (p != last))
     {
-        r.push(p);
+        r.push(var(last-p, p));
         return r;
     }
-    while (*p)
+    while (p != last)
     {
         const char* beg = p;
-        while (*p && !std::isspace(*p)) { ++p; }
+        while ((p != last) && !std::isspace(*p)) { ++p; }
         const char* end = p;
         int len = end - beg;
         if (len > 0)
@@ -204,12 +214,12 @@ var var::split(int iMax) const
             var s(len, beg);
             r.push(s);
         }
-        while (std::isspace(*p)) { ++p; }
+        while ((p != last) && std::isspace(*p)) { ++p; }
         if (iMax && (r.size() >= iMax-1))
         {
-            if (*p)
+            if (p != last)
             {
-                r.push(p);
+                r.push(var(last-p, p));
                 break;
             }
         }
@@ -274,11 +284,11 @@ void Search::string(const var& iVar, var& oVar) const
 {
     boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
     boost::cmatch matches;
-    bool r = boost::regex_search(const_cast<var&>(iVar).str(), matches, re);
+    bool r = boost::regex_search(iVar.str(), strEnd(iVar), matches, re);
     var v;
     if (r)
         for (int i=0; i<(int)matches.size(); i++)
-            v[i] = matches.str(i).c_str();
+            v[i] = var(matches.length(i), matches[i].first);
     // This can be in place, so not until the matches are copied
     oVar = v;
 }
@@ -295,11 +305,11 @@ void Match::string(const var& iVar, var& oVar) const
 {
     boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
     boost::cmatch matches;
-    bool r = boost::regex_match(const_cast<var&>(iVar).str(), matches, re);
+    bool r = boost::regex_match(iVar.str(), strEnd(iVar), matches, re);
     var v;
     if (r)
         for (int i=0; i<(int)matches.size(); i++)
-            v[i] = matches.str(i).c_str();
+            v[i] = var(matches.length(i), matches[i].first);
     // This can be in place, so not until the matches are copied
     oVar = v;
 }
@@ -321,9 +331,10 @@ Replace::Replace(var iRE, var iStr)
 void Replace::string(const var& iVar, var& oVar) const
 {
     boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
-    std::string s = const_cast<var&>(iVar).str();
-    var str(mStr); // const thing
-    var r = boost::regex_replace(s, re, str.str()).c_str();
+    std::string s(iVar.str(), strEnd(iVar));
+    std::string str(mStr.str(), strEnd(mStr));
+    s = boost::regex_replace(s, re, str);
+    var r(s.size(), s.data());
     oVar = r;
 }
 
diff --git a/lube/txtfile.cpp b/lube/txtfile.cpp
index 39da89f..75ee121 100644
--- a/lube/txtfile.cpp
+++ b/lube/txtfile.cpp
@@ -54,7 +54,7 @@ void txtfile::write(var iFile, var iVar)
     {
         var line = iVar.at(i);
         if (line && line.heap() && line.atype<char>())
-            os << line.str() << std::endl;
+            os.write(line.str(), line.size()) << std::endl;
         else
             os << line << std::endl;
     }
-- 
2.43.0


From 8ee8ca4e2c2df7ec8f80d4bccd0de899d69a3836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:50 +0000
Subject: [PATCH 133/136] fix: JSON, numbers in text and graphs depended on the
 locale of the program: numbers were written such that they couldn't be read,
 or were cut short

---
 lube/graph.cpp |  1 +
 lube/json.cpp  | 19 +++++++++++++++++++
 lube/var.cpp   |  1 +
 3 files changed, 21 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index ba072ab..accabde 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -86,6 +86,7 @@ void Graph::writeGraphViz(var iFileName)
     std::ofstream ofs(iFileName.str(), std::ofstream::out);
     if (ofs.fail())
         throw error("graph::writeGraphViz(): Open failed");
+    ofs.imbue(std::locale::classic());
     LabelWriter lw(mGraph);
     write_graphviz(ofs, mGraph, lw);
     ofs.close();
diff --git a/lube/json.cpp b/lube/json.cpp
index 3835347..bb6911c 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <istream>
+#include <locale>
 #include <cctype>
 #include <cstring>
 #include <cassert>
@@ -273,6 +274,7 @@ var toNumber(var iStr)
 {
     // Try for integer
     varstream vs(iStr);
+    vs.imbue(std::locale::classic());
     long l;
     vs >> l;
     if (!vs.fail() && (vs.peek() == istream::traits_type::eof()))
@@ -390,9 +392,26 @@ void JSON::format(std::ostream& iStream, var iVar, int iIndent)
 }
 
 
+/**
+ * Numbers in JSON don't depend on the locale.  Restores that of the stream;
+ * the buffer of the stream is not concerned.
+ */
+class ClassicLocale
+{
+public:
+    ClassicLocale(std::ios_base& iStream)
+        : mStream(iStream), mLocale(iStream.imbue(std::locale::classic())) {}
+    ~ClassicLocale() { mStream.imbue(mLocale); }
+private:
+    std::ios_base& mStream;
+    std::locale mLocale;
+};
+
+
 // i: input variable; o: output stream...
 std::ostream& libube::operator <<(std::ostream& iStream, var iVar)
 {
+    ClassicLocale locale(iStream);
     JSON json;
     json.format(iStream, iVar);
     return iStream;
diff --git a/lube/var.cpp b/lube/var.cpp
index 5ae4d1b..ea65b9d 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -755,6 +755,7 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
     {
         T t;
         varstream s(iVar);
+        s.imbue(std::locale::classic());
         s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
         s >> t;
         oVar = t;
-- 
2.43.0


From f7a1c37383f81e84c007f0a9c083646f5f3f59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:34 +0000
Subject: [PATCH 134/136] fix: vertices of more than three digits were named
 with the separators of the locale

---
 lube/graph.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index accabde..20355c7 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -11,6 +11,7 @@
 #include <fstream>
 #include <boost/graph/adjacency_list.hpp>
 #include <boost/graph/graphviz.hpp>
+#include <boost/property_map/function_property_map.hpp>
 
 namespace libube
 {
@@ -86,9 +87,13 @@ void Graph::writeGraphViz(var iFileName)
     std::ofstream ofs(iFileName.str(), std::ofstream::out);
     if (ofs.fail())
         throw error("graph::writeGraphViz(): Open failed");
-    ofs.imbue(std::locale::classic());
     LabelWriter lw(mGraph);
-    write_graphviz(ofs, mGraph, lw);
+    // By default, the indices would be formatted according to the locale
+    auto id = boost::make_function_property_map<vertex>(
+        [](vertex iV) { return std::to_string(iV); }
+    );
+    boost::default_writer dw;
+    write_graphviz(ofs, mGraph, lw, dw, dw, id);
     ofs.close();
     if (ofs.fail())
         throw error("graph::writeGraphViz(): Write failed");
-- 
2.43.0


From 1c2117001fd6f7487bd9e11f99cd141f83c47154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:06 +0000
Subject: [PATCH 135/136] fix: an exemplar that ran out of memory as it was
 built was used incomplete by all later reads of XML and GEDCOM

---
 lube/gedfile.cpp | 22 ++++++++++++----------
 lube/xmlfile.cpp | 13 ++++++++-----
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index c888c1f..99a822b 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -128,11 +128,12 @@ var GEDCOM::individual()
     static var ind;
     if (!ind)
     {
-        // Build the exemplar
-        var nil;
-        ind["NAME"] = nil;
-        ind["TITL"] = nil;
-        ind["SEX"] = nil;
+        // Build the exemplar.  It must not be left incomplete
+        var nil, v;
+        v["NAME"] = nil;
+        v["TITL"] = nil;
+        v["SEX"] = nil;
+        ind = v;
     }
     return ind.copy();
 }
@@ -146,11 +147,12 @@ var GEDCOM::family()
     static var fam;
     if (!fam)
     {
-        // Build the exemplar
-        var nil;
-        fam["HUSB"] = nil;
-        fam["WIFE"] = nil;
-        fam["CHIL"] = nil;
+        // Build the exemplar.  It must not be left incomplete
+        var nil, v;
+        v["HUSB"] = nil;
+        v["WIFE"] = nil;
+        v["CHIL"] = nil;
+        fam = v;
     }
     return fam.copy();
 }
diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 6dacff6..93c4f60 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -242,11 +242,14 @@ var Expat::element()
     static var elem;
     if (!elem)
     {
-        // DATA first means it gets allocated in one block
-        elem[DATA] = nil;
-        elem[NAME] = nil;
-        elem[ATTR] = nil;
-        elem[TYPE] = "text";
+        // DATA first means it gets allocated in one block.  It must not be left
+        // incomplete
+        var v;
+        v[DATA] = nil;
+        v[NAME] = nil;
+        v[ATTR] = nil;
+        v[TYPE] = "text";
+        elem = v;
     }
     return elem.copy();
 }
-- 
2.43.0


From 91a6ce036242b0cf6f0c4daefa4478ceeb39dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:09 +0000
Subject: [PATCH 136/136] fix: changing the type of an element that was read
 from XML changed that of all others, and of those read later

---
 lube/xmlfile.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 93c4f60..0c6da1b 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -248,10 +248,14 @@ var Expat::element()
         v[DATA] = nil;
         v[NAME] = nil;
         v[ATTR] = nil;
-        v[TYPE] = "text";
+        v[TYPE] = nil;
         elem = v;
     }
-    return elem.copy();
+
+    // The copy is shallow; a string would be common to all elements
+    var r = elem.copy();
+    r[TYPE] = "text";
+    return r;
 }
 
 
-- 
2.43.0

