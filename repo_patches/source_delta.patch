From ec450cc2abf221392487e906e96edc154395e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:39 +0000
Subject: [PATCH 01/51] fix: grid assignment must leave the resize
 notifications of the data it gives up

Assigning one grid to another left the target registered with its previous
data block. A later resize of a grid still sharing that block then rewrote the
extent of the assigned grid (and wrote through a dangling pointer once it was
destroyed). The lazy allocation additionally kept its own buffer size and so
could run past the end of the buffer it had just adopted.
---
 src/grid/gridstorage/single-array-allocation.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index fd0084e..3fd5a21 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -296,6 +296,8 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayInstantAllocation<T, rank> &SingleArrayInstantAllocation<T, rank>::operator=(const SingleArrayInstantAllocation<T, rank> &other) 
     {
+        // stop following the resizes of the data that is being given up
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
@@ -401,10 +403,16 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayLazyAllocation<T, rank> &SingleArrayLazyAllocation<T, rank>::operator=(const SingleArrayLazyAllocation<T, rank> &other) 
     {
+        // stop following the resizes of the data that is being given up
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
         this->dims = other.dims;
+        this->bufSize = other.bufSize;
+        this->avgSize = other.avgSize;
+        this->avgVar = other.avgVar;
+        this->r = other.r;
         this->data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
         return *this;
     };
-- 
2.43.0


From e3aa41e57a256030087f9f393e80f82e23a290b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:40 +0000
Subject: [PATCH 02/51] fix: lazy grid storage uses the same signed index type
 as every grid

LazyArrayGridStorage could not be instantiated because the allocation policy
declared its bounds with size_t while the storage classes use int.
---
 src/grid/gridstorage/single-array-allocation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index 3fd5a21..6d7c066 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -186,10 +186,10 @@ namespace schnek
     {
     public:
         /// The grid index type
-        typedef Array<size_t, rank> IndexType;
+        typedef Array<int, rank> IndexType;
 
         /// The grid range type
-        typedef Range<size_t, rank> RangeType;
+        typedef Range<int, rank> RangeType;
     protected:
         struct SizeInfo {
             IndexType lo;
-- 
2.43.0


From a7ff1bee4bc0359106628613ed7795e0c570c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:55 +0000
Subject: [PATCH 03/51] fix: Kokkos grids keep sharing their data across
 assignment and resize

A resize replaced the view of the resized grid only, so every copy was told
the new extent while still pointing at the old, possibly smaller, memory. The
implicit assignment neither registered with the new owner's notifications nor
left the old ones, leaving a dangling entry behind. getSize() referred to a
member that does not exist.
---
 src/grid/gridstorage/kokkos-storage.hpp | 40 +++++++++++++++++--------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 0a1b22a..09ceaf1 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -75,7 +75,8 @@ namespace schnek {
         /// The grid range type
         typedef Range<int, rank> RangeType;
     private:
-        typedef std::function<void(const RangeType&)> UpdaterType;
+        typedef Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> ViewType;
+        typedef std::function<void(const RangeType&, const ViewType&)> UpdaterType;
         typedef std::map<void *, UpdaterType> UpdaterMapType;
 
         /// The lowest and highest coordinates in the grid (inclusive)
@@ -84,7 +85,7 @@ namespace schnek {
         /// The dimensions of the grid `dims = high - low + 1`
         IndexType dims;
 
-        Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> view;
+        ViewType view;
 
         /// A map of updaters that are called when the grid is resized
         std::shared_ptr<UpdaterMapType> updaters;
@@ -112,6 +113,8 @@ namespace schnek {
          */
         KokkosGridStorage(const RangeType &range);
 
+        KokkosGridStorage &operator=(const KokkosGridStorage &);
+
         /// Destructor frees any allocated memory
         ~KokkosGridStorage();
 
@@ -153,7 +156,7 @@ namespace schnek {
         SCHNEK_INLINE int getDims(int k) const { return this->dims[k]; }
 
         /// Get the length of the allocated array
-        SCHNEK_INLINE int getSize() const { return this->size; }
+        SCHNEK_INLINE int getSize() const { return int(this->view.size()); }
 
         /**
          * @brief resizes to grid with lower indices low[0],...,low[rank-1]
@@ -201,14 +204,15 @@ namespace schnek {
             return getFromViewImpl(pos, std::make_index_sequence<rank>{});
         }
 
-        void update(const RangeType& range) {
+        void update(const RangeType& range, const ViewType &view) {
             for (auto& updater: *updaters) {
-                updater.second(range);
+                updater.second(range, view);
             }
         }
 
-        void updateSizeInfo(const RangeType &range) {
+        void updateSizeInfo(const RangeType &range, const ViewType &view) {
             this->range = range;
+            this->view = view;
             for (size_t i = 0; i < rank; ++i)
             {
                 dims[i] = range.getHi(i) - range.getLo(i) + 1;
@@ -229,7 +233,7 @@ namespace schnek {
           dims{0},
           updaters{new UpdaterMapType}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType &view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -238,7 +242,7 @@ namespace schnek {
           dims{other.dims}, view{other.view},
           updaters{other.updaters}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType &view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -248,7 +252,7 @@ namespace schnek {
     {
         dims = hi - lo + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType &view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -258,7 +262,20 @@ namespace schnek {
     {
         dims = range.getHi() - range.getLo() + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType &view) { this->updateSizeInfo(range, view); };
+    }
+
+    template <typename T, size_t rank, class ...ViewProperties>
+    KokkosGridStorage<T, rank, ViewProperties...> &KokkosGridStorage<T, rank, ViewProperties...>::operator=(const KokkosGridStorage &other)
+    {
+        // stop following the resizes of the data that is being given up
+        updaters->erase(this);
+        range = other.range;
+        dims = other.dims;
+        view = other.view;
+        updaters = other.updaters;
+        (*updaters)[this] = [this](const RangeType& range, const ViewType &view) { this->updateSizeInfo(range, view); };
+        return *this;
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -293,8 +310,7 @@ namespace schnek {
     void KokkosGridStorage<T, rank, ViewProperties...>::resize(const IndexType &lo, const IndexType &hi)
     {
         IndexType dims = hi - lo + 1;
-        this->view = createKokkosView(dims);
-        update(RangeType{lo, hi});
+        update(RangeType{lo, hi}, createKokkosView(dims));
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
-- 
2.43.0


From 157a9fc340b0758a04305c47cff76561c70da3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:17 +0000
Subject: [PATCH 04/51] fix: an empty range has no positions to iterate over

---
 src/grid/range.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index fcf1129..62273af 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -91,13 +91,23 @@ class Range {
     SCHNEK_INLINE const T getHi(size_t i) const { return hi[i]; }
 
     /// Returns true if the argument lies within the range
-    bool inside(const LimitType &p)
+    bool inside(const LimitType &p) const
     {
       for (int i=0; i<rank; ++i)
         if ((p[i]<lo[i]) || (p[i]>hi[i])) return false;
 
       return true;
     }
+
+    /// Returns true if the range contains no points, i.e. if hi is less than lo in any dimension
+    bool isEmpty() const
+    {
+      for (size_t i=0; i<rank; ++i)
+        if (hi[i]<lo[i]) return true;
+
+      return false;
+    }
+
     /// projects the Array onto an Array of shorter length
     template<int destLength>
     Range<T,destLength,CheckingPolicy> project() const
@@ -349,12 +359,12 @@ class Range {
     };
 
     /// Creates an iterator pointing to the beginning of the rectangle
-    iterator begin() {
-      return iterator(*this, this->getLo());
+    iterator begin() const {
+      return iterator(*this, this->getLo(), isEmpty());
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-    iterator end() {
+    iterator end() const {
       return iterator(*this, this->getLo(), true);
     }
 };
-- 
2.43.0


From d38cacd489bcfa169da103617aae0628140c199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:17 +0000
Subject: [PATCH 05/51] fix: grids accept array expressions as index

---
 src/grid/grid.hpp | 4 ++--
 src/grid/grid.t   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/grid.hpp b/src/grid/grid.hpp
index 27f153e..bbb9d67 100644
--- a/src/grid/grid.hpp
+++ b/src/grid/grid.hpp
@@ -96,10 +96,10 @@ namespace schnek {
         SCHNEK_INLINE T  operator[](const Array<int,rank,ArrayCheckingPolicy>& pos) const; // read
 
         /** index operator, writing */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T& operator[](const ArrayExpression<Operator, Length>& pos); // write
         /** index operator, reading */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T  operator[](const ArrayExpression<Operator, Length>& pos) const; // read
 
         /** index operator, for 1D grids, writing */
diff --git a/src/grid/grid.t b/src/grid/grid.t
index 3618f59..91edafd 100644
--- a/src/grid/grid.t
+++ b/src/grid/grid.t
@@ -118,7 +118,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T& GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos)
 {
@@ -131,7 +131,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos) const
 {
-- 
2.43.0


From c4916cf4fb95b8e538030521a71aaaf857031f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:17 +0000
Subject: [PATCH 06/51] fix: sub grids and grid transforms can be instantiated
 again

---
 src/grid/gridtransform.hpp | 9 +++++----
 src/grid/gridtransform.t   | 6 +++---
 src/grid/subgrid.hpp       | 7 ++++---
 src/grid/subgrid.t         | 4 +++-
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/grid/gridtransform.hpp b/src/grid/gridtransform.hpp
index fc50cf1..4a48c94 100644
--- a/src/grid/gridtransform.hpp
+++ b/src/grid/gridtransform.hpp
@@ -34,13 +34,14 @@ namespace schnek {
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
 class GridTransformStorage {
   public:
     typedef Array<int,rank> IndexType;
+    typedef Range<int,rank> RangeType;
     typedef BaseGrid BaseGridType;
     typedef Transformation TransformationType;
   protected:
@@ -128,7 +129,7 @@ class GridTransformStorage {
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy = GridNoArgCheck
+  template<size_t> class CheckingPolicy = GridNoArgCheck
 >
 class GridTransform
   : public internal::GridBase
@@ -137,7 +138,7 @@ class GridTransform
       BaseGrid::Rank,
       CheckingPolicy<BaseGrid::Rank>,
       GridTransformStorage<
-        typename BaseGrid::value_type,
+        typename Transformation::value_type,
         BaseGrid::Rank,
         BaseGrid,
         Transformation
@@ -151,7 +152,7 @@ class GridTransform
           BaseGrid::Rank,
           CheckingPolicy<BaseGrid::Rank>,
           GridTransformStorage<
-            typename BaseGrid::value_type,
+            typename Transformation::value_type,
             BaseGrid::Rank,
             BaseGrid,
             Transformation
diff --git a/src/grid/gridtransform.t b/src/grid/gridtransform.t
index d644fed..696e500 100644
--- a/src/grid/gridtransform.t
+++ b/src/grid/gridtransform.t
@@ -29,7 +29,7 @@ namespace schnek
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
@@ -40,7 +40,7 @@ GridTransformStorage<T, rank, BaseGrid, Transformation>::GridTransformStorage()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
   : ParentType()
@@ -49,7 +49,7 @@ GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform(BaseGridType &baseGrid_)
   : ParentType()
diff --git a/src/grid/subgrid.hpp b/src/grid/subgrid.hpp
index aad8191..b1576fb 100644
--- a/src/grid/subgrid.hpp
+++ b/src/grid/subgrid.hpp
@@ -42,6 +42,7 @@ class SubGridStorage {
     typedef Array<int,rank> IndexType;
     typedef BaseGrid BaseGridType;
     typedef Range<int, rank> DomainType;
+    typedef DomainType RangeType;
   protected:
     BaseGridType *baseGrid;
     DomainType domain;
@@ -79,7 +80,7 @@ class SubGridStorage {
         typename DomainType::iterator it;
         const BaseGridType *baseGrid;
         const T* element;
-        const_storage_iterator(typename DomainType::iterator it_, BaseGridType *baseGrid_)
+        const_storage_iterator(typename DomainType::iterator it_, const BaseGridType *baseGrid_)
           : it(it_), baseGrid(baseGrid_), element(&baseGrid->get(*it)) {}
 
         friend class SubGridStorage;
@@ -133,8 +134,8 @@ class SubGridStorage {
     storage_iterator begin() { return storage_iterator(domain.begin(), baseGrid); }
     storage_iterator end() { return storage_iterator(domain.end(), baseGrid); }
 
-    const_storage_iterator cbegin() const { return const_storage_iterator(domain.cbegin(), baseGrid); }
-    const_storage_iterator cend() const { return const_storage_iterator(domain.cend(), baseGrid); }
+    const_storage_iterator cbegin() const { return const_storage_iterator(domain.begin(), baseGrid); }
+    const_storage_iterator cend() const { return const_storage_iterator(domain.end(), baseGrid); }
 
     void setBaseGrid(BaseGridType &baseGrid_) { baseGrid = &baseGrid_; }
 
diff --git a/src/grid/subgrid.t b/src/grid/subgrid.t
index c7b2563..a76b7dd 100644
--- a/src/grid/subgrid.t
+++ b/src/grid/subgrid.t
@@ -33,7 +33,7 @@ template<
   class BaseGrid
 >
 SubGridStorage<T, rank, BaseGrid>::SubGridStorage()
-  : baseGrid(NULL), domain(0,0), dims(0)
+  : baseGrid(NULL), domain(), dims(0)
 {}
 
 template<
@@ -56,6 +56,8 @@ template<
 void SubGridStorage<T, rank, BaseGrid>::resize(const IndexType &low_, const IndexType &high_)
 {
     domain = DomainType(low_, high_);
+    for (size_t d = 0; d < rank; d++)
+      dims[d] = high_[d] - low_[d] + 1;
 }
 
 template<
-- 
2.43.0


From 7914dfb7261af2ed0dbad8d4d0dd0caf5c6806b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 07/51] fix: array expressions compute in the common type of
 their operands

---
 src/grid/arrayexpression.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/grid/arrayexpression.hpp b/src/grid/arrayexpression.hpp
index 819b1aa..baf6c7e 100644
--- a/src/grid/arrayexpression.hpp
+++ b/src/grid/arrayexpression.hpp
@@ -30,13 +30,14 @@
 #include "array.hpp"
 
 #include <iostream>
+#include <type_traits>
 
 namespace schnek {
 
 /**Expression template for the Array class.
  * This template will be created when adding or subtracting Arrays and
  * will allow performing expressions without temporary variables.
- * @todo Handle type promotion
+ * The elements of an expression have the common type of its operands.
  */
 template<class Operator, size_t Length>
 class ArrayExpression {
@@ -216,7 +217,7 @@ struct ArrayOpUnaryMinus {
     ArrayBinaryOp<                                                              \
       ArrayExpression<exp1, length>,                                            \
       ArrayExpression<exp2, length>,                                            \
-      op<typename exp1::value_type>                                             \
+      op<typename std::common_type<typename exp1::value_type, typename exp2::value_type>::type> \
     >,                                                                          \
     length                                                                      \
   >                                                                             \
@@ -228,7 +229,7 @@ struct ArrayOpUnaryMinus {
     <                                                                           \
       ArrayExpression<exp1, length>,                                            \
       ArrayExpression<exp2, length>,                                            \
-      op<typename exp1::value_type>                                             \
+      op<typename std::common_type<typename exp1::value_type, typename exp2::value_type>::type> \
     >  OperatorType;                                                            \
                                                                                 \
     return ArrayExpression<OperatorType, length>(OperatorType(A,B));            \
@@ -276,7 +277,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression<exp, length>,                                               \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -288,7 +289,7 @@ SCHNEK_INLINE operator symbol (
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression<exp, length>,                                               \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -307,7 +308,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -319,7 +320,7 @@ SCHNEK_INLINE operator symbol (
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -332,7 +333,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayConstantExp<T>,                                                        \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -341,7 +342,7 @@ SCHNEK_INLINE operator symbol (const T &A, const ArrayExpression<exp, length> &B
   typedef ArrayBinaryOp<                                                        \
     ArrayConstantExp<T>,                                                        \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -354,7 +355,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression<exp, length>,                                               \
     ArrayConstantExp<T>,                                                        \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -363,7 +364,7 @@ SCHNEK_INLINE operator symbol (const ArrayExpression<exp, length> &A, const T &B
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression<exp, length>,                                               \
     ArrayConstantExp<T>,                                                        \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
-- 
2.43.0


From d7c2efe289b7a9312a363054799ddf117999678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:42 +0000
Subject: [PATCH 08/51] fix: array expressions can be negated

---
 src/grid/arrayexpression.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/grid/arrayexpression.hpp b/src/grid/arrayexpression.hpp
index baf6c7e..cd7526d 100644
--- a/src/grid/arrayexpression.hpp
+++ b/src/grid/arrayexpression.hpp
@@ -444,14 +444,12 @@ SCHNEK_INLINE operator symbol (
 #define UNARY_EXPR(op, symbol)                                                  \
 template<                                                                       \
   class exp,                                                                    \
-  class T,                                                                      \
-  size_t length,                                                                   \
-  template<size_t> class CheckingPolicy                                            \
+  size_t length                                                                    \
 >                                                                               \
 ArrayExpression<                                                                \
   ArrayUnaryOp<                                                                 \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename exp::value_type>                                                \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -461,7 +459,7 @@ SCHNEK_INLINE operator symbol (
 {                                                                               \
   typedef ArrayUnaryOp<                                                         \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename exp::value_type>                                                \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A));               \
-- 
2.43.0


From 5512642abee7283be9559ea6dfaee8be8c41faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:42 +0000
Subject: [PATCH 09/51] fix: initialising from a deeply nested block must reach
 the root block

---
 src/variables/block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/block.cpp b/src/variables/block.cpp
index dab2ed1..191e9b3 100644
--- a/src/variables/block.cpp
+++ b/src/variables/block.cpp
@@ -137,7 +137,7 @@ void Block::postInitHierarchy()
 void Block::initAll()
 {
   Block *b = this;
-  while (b->parent) b = &(*parent);
+  while (b->parent) b = &(*b->parent);
 
   b->evaluateParameters();
   b->registerHierarchy();
-- 
2.43.0


From 9b8e405f6fb931a59af22f6cf9918a04ec811f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:42 +0000
Subject: [PATCH 10/51] fix: parameter group lookup must not erase with
 iterators of another set

---
 src/variables/blockparameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/blockparameters.cpp b/src/variables/blockparameters.cpp
index 8f58e99..3d8aaa9 100644
--- a/src/variables/blockparameters.cpp
+++ b/src/variables/blockparameters.cpp
@@ -51,7 +51,7 @@ bool ParametersGroup::isElement(pVariable v)
 
 bool ParametersGroup::hasElements(std::set<long> &ids)
 {
-  ids.erase(parameters.begin(), parameters.end());
+  for(long id: parameters) ids.erase(id);
   return ids.empty();
 }
 
-- 
2.43.0


From bedde59e6d6d45f2aff4aa257efd443e31f594bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:42 +0000
Subject: [PATCH 11/51] fix: a field filler uses the coordinates and updater it
 was given

---
 src/tools/fieldtools.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/fieldtools.hpp b/src/tools/fieldtools.hpp
index f5f429a..42687b2 100644
--- a/src/tools/fieldtools.hpp
+++ b/src/tools/fieldtools.hpp
@@ -142,10 +142,9 @@ class FieldFiller
       size_t rank,
       template<size_t> class ArrayCheckingPolicy
     >
-    fieldAdder<rank,ArrayCheckingPolicy> &set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
+    fieldAdder<rank,ArrayCheckingPolicy> set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
     {
-        static fieldAdder<rank,ArrayCheckingPolicy> adder(coords, updater, implementations);
-        return adder;
+        return fieldAdder<rank,ArrayCheckingPolicy>(coords, updater, implementations);
     }
 
     void clear() { implementations.clear(); }
-- 
2.43.0


From c65d97f53e0ae880479e0efe5ed801b25558604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:42 +0000
Subject: [PATCH 12/51] fix: looking for a missing variable must not go above
 the root block

---
 src/variables/variables.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index ef872e9..a6ab2fb 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -146,7 +146,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
   {
     if (vars.count(name)>0) return true;
   }
-  if (upward && (parent.get()==0)) return parent->exists(path, true);
+  if (upward && parent) return parent->exists(path, true);
 
   return false;
 }
-- 
2.43.0


From dd15dbc8ff986c0598e82b409e7c784f883b812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:47 +0000
Subject: [PATCH 13/51] fix: assigning a Kokkos grid to itself must not release
 its data

---
 src/grid/gridstorage/kokkos-storage.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 09ceaf1..37543ab 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -268,6 +268,9 @@ namespace schnek {
     template <typename T, size_t rank, class ...ViewProperties>
     KokkosGridStorage<T, rank, ViewProperties...> &KokkosGridStorage<T, rank, ViewProperties...>::operator=(const KokkosGridStorage &other)
     {
+        // assigning a view to itself may release its memory
+        if (this == &other) return *this;
+
         // stop following the resizes of the data that is being given up
         updaters->erase(this);
         range = other.range;
-- 
2.43.0


From 6bba9057d5fdcbf98a1a55e259e99a1a048cd871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:51 +0000
Subject: [PATCH 14/51] fix: ghost boundaries of grids and fields can be
 instantiated

Boundary::getGhostBoundary passed an array checking policy on as the grid
checking policy of the sub grid, so no call of it could be compiled.
---
 src/grid/boundary.hpp | 4 ++--
 src/grid/boundary.t   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grid/boundary.hpp b/src/grid/boundary.hpp
index 0870125..f58a68b 100644
--- a/src/grid/boundary.hpp
+++ b/src/grid/boundary.hpp
@@ -134,7 +134,7 @@ class Boundary
      * @return A sub-grid containing ghost cells
      */
     template<class GridType>
-    SubGrid<GridType, CheckingPolicy> getGhostBoundary(size_t dim, bound b, GridType &grid);
+    SubGrid<GridType> getGhostBoundary(size_t dim, bound b, GridType &grid);
 
     /** Returns sub-grid containing only the boundary domain.
      * The bounadry domain has a thickness determined by the number of ghost cells.
@@ -150,7 +150,7 @@ class Boundary
       template<size_t> class CheckingPolicy2,
       template<typename, size_t> class StoragePolicy
     >
-    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy>, CheckingPolicy>
+    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy> >
       getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field);
 };
 
diff --git a/src/grid/boundary.t b/src/grid/boundary.t
index 96bd12c..3d7ba43 100644
--- a/src/grid/boundary.t
+++ b/src/grid/boundary.t
@@ -141,10 +141,10 @@ template<
   template<size_t> class CheckingPolicy
 >
 template<class GridType>
-SubGrid<GridType, CheckingPolicy> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
+SubGrid<GridType> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
 {
         DomainType bounds = getGhostDomain(dim, b);
-        return SubGrid<GridType, CheckingPolicy>(bounds.getLo(), bounds.getHi(), grid);
+        return SubGrid<GridType>(bounds.getLo(), bounds.getHi(), grid);
 }
 
 template<
@@ -156,11 +156,11 @@ template<
   template<size_t> class CheckingPolicy2,
   template<typename, size_t> class StoragePolicy
 >
-SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>
+SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >
   Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field)
 {
         DomainType bounds = getBoundaryDomain(dim, b, field.getStagger()[dim]);
-        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>(bounds.getLo(), bounds.getHi(), field);
+        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >(bounds.getLo(), bounds.getHi(), field);
 }
 
 } // namespace schnek
-- 
2.43.0


From acab58911cfbc0ea58bff078201f50a7794ef33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 15/51] fix: the inner range of a field can be instantiated

Field::getInnerRange built a range from array expressions, which ranges cannot
be constructed from, so no call of it could be compiled.
---
 src/grid/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/field.hpp b/src/grid/field.hpp
index 58de237..097a282 100644
--- a/src/grid/field.hpp
+++ b/src/grid/field.hpp
@@ -104,7 +104,7 @@ class Field : public Grid<T, rank, CheckingPolicy, StoragePolicy>
     IndexType getInnerHi() { return this->getHi() - ghostCells; }
 
     /** Get the range the inner grid range */
-    RangeType getInnerRange() { return RangeType{this->getLo() + ghostCells, this->getHi() - ghostCells}; }
+    RangeType getInnerRange() { return RangeType(getInnerLo(), getInnerHi()); }
 
     /** Calculates index and offset from a position on the field
      *
-- 
2.43.0


From 17efde3676b8a9c25cd5b5482f41eb635710cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 16/51] fix: domain subdivisions honour the lower bound of the
 global domain

---
 src/grid/domainsubdivision.hpp |  4 ++--
 src/grid/mpisubdivision.t      | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index cbc227d..2cf5ce9 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -141,8 +141,8 @@ class DomainSubdivision {
       {
         const T &lo = globalExtent.getLo()[i];
         T dx = (globalExtent.getHi()[i]-lo) / (T)(globalGridSize.getHi()[i] - globalGridSize.getLo()[i] + 1);
-        localDomainMin[i] = lo + this->getInnerLo()[i]*dx;
-        localDomainMax[i] = lo + (this->getInnerHi()[i] + 1)*dx;
+        localDomainMin[i] = lo + (this->getInnerLo()[i] - globalGridSize.getLo()[i])*dx;
+        localDomainMax[i] = lo + (this->getInnerHi()[i] - globalGridSize.getLo()[i] + 1)*dx;
       }
       return Range<T, Rank, CheckingPolicy>(localDomainMin,localDomainMax);
     }
diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 3b87a65..e23a343 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -104,17 +104,17 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
     errorCode = MPI_Cart_shift(comm,i,1,&prevcoord[i],&nextcoord[i]);
     SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not shift Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-    width[i] = (High[i]-1.)/double(dims[i]);
+    width[i] = (hi[i]-lo[i]-1.)/double(dims[i]);
 
     if (mycoord[i]>0)
-      Low[i] = int(width[i]*mycoord[i])-delta+1;
+      Low[i] = lo[i]+int(width[i]*mycoord[i])-delta+1;
     else
-      Low[i] = -delta;
+      Low[i] = lo[i]-delta;
 
     if (mycoord[i]<(dims[i]-1))
-      High[i] = int(width[i]*(mycoord[i]+1))+delta;
+      High[i] = lo[i]+int(width[i]*(mycoord[i]+1))+delta;
     else
-      High[i] = High[i]+delta;
+      High[i] = hi[i]+delta;
 
     exchangeSizeProduct *= (High[i]-Low[i]+1);
   }
-- 
2.43.0


From abb589836959f63ac3d6b6253b27ea5fe307363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 17/51] fix: the global domain of a serial subdivision excludes
 the ghost cells

---
 src/grid/domainsubdivision.hpp | 5 ++++-
 src/grid/domainsubdivision.t   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index 2cf5ce9..5748a1e 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -250,6 +250,9 @@ class SerialSubdivision : public DomainSubdivision<GridType>
 
     /// The positions of the upper corner of the local piece of the grid
     LimitType High;
+
+    /// The global domain excluding ghost cells
+    DomainType globalDomain;
   public:
     using DomainSubdivision<GridType>::init;
     using DomainSubdivision<GridType>::exchange;
@@ -267,7 +270,7 @@ class SerialSubdivision : public DomainSubdivision<GridType>
     void init(const LimitType &low, const LimitType &high, int delta);
 
     /// Return the global domain size excluding ghost cells
-    const DomainType &getGlobalDomain() const { return this->bounds->getDomain(); }
+    const DomainType &getGlobalDomain() const { return globalDomain; }
 
     /** @brief Exchanges the boundaries in direction specified by dim.
      *
diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index cd6206e..c2aa70e 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -40,6 +40,7 @@ template<class GridType>
 void SerialSubdivision<GridType>::init(const LimitType &low, const LimitType &high, int delta)
 {
   this->bounds = std::make_shared<BoundaryType>(low, high, delta);
+  globalDomain = this->bounds->getInnerDomain();
 }
 
 template<class GridType>
-- 
2.43.0


From 7ea887737b5d9282445ac9bbc89823157fd87142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:53 +0000
Subject: [PATCH 18/51] fix: exchanging data in a serial subdivision must not
 share the buffers

---
 src/grid/domainsubdivision.t | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index c2aa70e..eeea398 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -114,7 +114,11 @@ void SerialSubdivision<GridType>::accumulate(GridType &grid, size_t dim)
 template<class GridType>
 void SerialSubdivision<GridType>::exchangeData(size_t, int, BufferType &in, BufferType &out)
 {
-  out = in;
+  typedef typename BufferType::IndexType Index;
+  int size = in.getDims(0);
+  BufferType copy{Index(size)};
+  for (int i=0; i<size; ++i) copy(i) = in(in.getLo(0)+i);
+  out = copy;
 }
 
 } // namespace schnek
-- 
2.43.0


From 740054ce0bcd59e942c96f1fa31d124b11246885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:13 +0000
Subject: [PATCH 19/51] fix: exchange buffer sizes of large subdivisions must
 not overflow

---
 src/grid/mpisubdivision.t | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index e23a343..4088492 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -95,7 +95,7 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
   SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not determine MPI Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
   double width[Rank];
-  int exchangeSizeProduct = delta;
+  long exchangeSizeProduct = delta;
 
   //std::cout << "Calculating exchange size product: " << exchangeSizeProduct << std::endl;
 
-- 
2.43.0


From c0a2852dd03176243e20db828c7b3cc6dda04821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:33 +0000
Subject: [PATCH 20/51] fix: chains of operators with operands of different
 types associate to the left

---
 src/parser/parsertoken.t     | 53 +++++++++++++++++++++++++++++++++++-
 src/variables/expression.hpp | 22 ++++++++++++++-
 2 files changed, 73 insertions(+), 2 deletions(-)

diff --git a/src/parser/parsertoken.t b/src/parser/parsertoken.t
index 43a07b9..c7cb9da 100644
--- a/src/parser/parsertoken.t
+++ b/src/parser/parsertoken.t
@@ -179,6 +179,55 @@ struct BinaryOperatorVisitor : public boost::static_visitor<ExpressionVariant>
     }
 };
 
+/** Promotes the operands of a chain of operators of the same precedence
+ *
+ * The right hand side of an operator can be a chain of operators of the same precedence.
+ * When the left hand side has a wider type, the operands of the chain need to be promoted,
+ * and not the result of the chain. Otherwise the left hand side could not be the first
+ * operand of the chain.
+ */
+template<template<class> class op>
+struct ChainPromoter : public boost::static_visitor<ExpressionVariant>
+{
+    template<class ExpressionPointer1, class ExpressionPointer2>
+    ExpressionVariant operator()(ExpressionPointer1, ExpressionPointer2 e2)
+    {
+      return e2;
+    }
+
+    ExpressionVariant operator()(pFloatExpression, pIntExpression e2)
+    {
+      return promote<double, int, TypecastOp<double,int> >(e2);
+    }
+
+    ExpressionVariant operator()(pStringExpression, pIntExpression e2)
+    {
+      return promote<std::string, int, TypecastOp<std::string,int,LexicalCast> >(e2);
+    }
+
+    ExpressionVariant operator()(pStringExpression, pFloatExpression e2)
+    {
+      return promote<std::string, double, TypecastOp<std::string,double,LexicalCast> >(e2);
+    }
+  private:
+    template<class vtype, class vtype_orig, class Cast>
+    ExpressionVariant promote(std::shared_ptr<Expression<vtype_orig> > e)
+    {
+      typedef BinaryOp<op<vtype_orig>, vtype_orig> Chain;
+      typedef BinaryOp<typename op<vtype_orig>::Inverted, vtype_orig> InvChain;
+
+      std::shared_ptr<Chain> chain = std::dynamic_pointer_cast<Chain>(e);
+      if (chain)
+        return chain->template convertOperands<op<vtype>, vtype, Cast>();
+
+      std::shared_ptr<InvChain> invChain = std::dynamic_pointer_cast<InvChain>(e);
+      if (invChain)
+        return invChain->template convertOperands<typename op<vtype>::Inverted, vtype, Cast>();
+
+      return e;
+    }
+};
+
 template<template<class> class OpType>
 void ParserToken::assignUnaryOperator(ParserToken &parTok)
 {
@@ -196,8 +245,10 @@ void ParserToken::assignBinaryOperator(ParserToken &parTok1, ParserToken &parTok
   context = parTok1.context;
   atomTok = parTok1.atomTok;
   type = expression;
+  ChainPromoter<OpType> chainProm;
+  ExpressionVariant data2 = boost::apply_visitor(chainProm, parTok1.data, parTok2.data);
   TypePromoter tprom;
-  boost::apply_visitor(tprom, parTok1.data, parTok2.data);
+  boost::apply_visitor(tprom, parTok1.data, data2);
 
   BinaryOperatorVisitor<OpType> visit(tprom.getResultB());
   data = boost::apply_visitor(visit, tprom.getResultA());
diff --git a/src/variables/expression.hpp b/src/variables/expression.hpp
index 282aa37..942dfb0 100644
--- a/src/variables/expression.hpp
+++ b/src/variables/expression.hpp
@@ -256,11 +256,31 @@ class BinaryOp : public Expression<vtype>
 
     typedef BinaryOp<typename oper::Inverted, vtype> InvType;
     typedef std::shared_ptr<InvType> pInvType;
-    friend class BinaryOp<typename oper::Inverted, vtype>;
 
     /// pointers to the expressions to modify
     std::list<ExpressionInfo<vtype> > expressions;
+
+    template<class otherOper, class otherType>
+    friend class BinaryOp;
+
+    /// Construct an empty chain of operations
+    BinaryOp() {}
   public:
+    /** Apply the same chain of operations to operands of another type
+     *
+     * The operands are converted individually before the operations are carried out.
+     */
+    template<class newOper, class newType, class Cast>
+    typename Expression<newType>::pExpression convertOperands()
+    {
+      std::shared_ptr<BinaryOp<newOper, newType> > result(new BinaryOp<newOper, newType>());
+      for (ExpressionInfo<vtype> exp: expressions)
+      {
+        result->expressions.push_back(ExpressionInfo<newType>(exp.positive, std::make_shared<Cast>(exp.expression)));
+      }
+      return result;
+    }
+
     BinaryOp(pExpression expr1_, pExpression expr2_)
     {
       typedef std::shared_ptr<BinaryOp<oper, vtype> > pBinaryOp;
-- 
2.43.0


From 544ca209e001ce10346e58ce118792b87f1042f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:33 +0000
Subject: [PATCH 21/51] fix: integer division by zero in an expression is an
 evaluation error

---
 src/variables/operators.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/variables/operators.hpp b/src/variables/operators.hpp
index 0557af6..1a3c4f2 100644
--- a/src/variables/operators.hpp
+++ b/src/variables/operators.hpp
@@ -211,6 +211,13 @@ namespace expression {
   }
 
 
+  template<>
+  inline int OperatorDivide<int>::eval(int val1, int val2)
+  {
+      if (val2 == 0) throw EvaluationException("Division by zero");
+      return val1 / val2;
+  }
+
   template<>
   inline std::string OperatorNeg<std::string>::eval(std::string) { return ""; }
 
-- 
2.43.0


From dfc713e0be331d9877340e3af1e021af08675c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:50 +0000
Subject: [PATCH 22/51] fix: number literals that can not be represented are a
 parser error

---
 src/parser/parsertoken.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parser/parsertoken.cpp b/src/parser/parsertoken.cpp
index 14db956..13d1871 100644
--- a/src/parser/parsertoken.cpp
+++ b/src/parser/parsertoken.cpp
@@ -96,8 +96,15 @@ void ParserToken::assignInteger(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != INTEGER) throw ParserError("Can't convert non-integer atom to integer", atomTok);
 
-  pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
-  data = pI;
+  try
+  {
+    pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
+    data = pI;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Could not convert '"+atomTok.getString()+"' to an integer", atomTok);
+  }
   type = int_type;
   // std::cerr << "Read Integer " << atomTok.getString() << "\n";
 }
@@ -110,8 +117,15 @@ void ParserToken::assignFloat(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != FLOAT) throw ParserError("Can't convert non-float atom to float", atomTok);
 
-  pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
-  data = pF;
+  try
+  {
+    pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
+    data = pF;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Could not convert '"+atomTok.getString()+"' to a float", atomTok);
+  }
   type = float_type;
   // std::cerr << "Read Float " << atomTok.getString() << "\n";
 }
-- 
2.43.0


From 927d42180255408bc4ea02b727d1b4260576e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:50 +0000
Subject: [PATCH 23/51] fix: an incomplete setup file is reported as a parser
 error

---
 src/parser/parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index e2fc8df..42ed57c 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -90,7 +90,14 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     }
   }
 
-  Parse(pParser, 0, ParserToken());
+  try {
+    Parse(pParser, 0, ParserToken());
+  }
+  catch (ParserInternalError & e) {
+    Token last(filename, 1, 0);
+    for (Token tok: tokens) last = tok;
+    throw ParserError("Syntax Error: unexpected end of file", last);
+  }
 
   ParseFree(pParser);
 
-- 
2.43.0


From 8f5e3426c04ac92d3a54dcf31e7fc8206967ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 24/51] fix: setup files may contain long tokens and end in a
 comment

---
 parser/deckscanner.rl               | 55 ++++++-----------------------
 src/parser/internal/deckscanner.cpp | 50 +++++---------------------
 2 files changed, 19 insertions(+), 86 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index ebacad4..141cee5 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -4,6 +4,7 @@
  */
 
 #include <iostream>
+#include <iterator>
 #include <string>
 #include <cstring>
 #include <cstdio>
@@ -98,59 +99,25 @@ using namespace schnek;
 
 %% write data nofinal;
 
-#define BUFSIZE 128
-
-    
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::string buf((std::istreambuf_iterator<char>(*input)), std::istreambuf_iterator<char>());
+  // make sure that comments in the last line are terminated
+  buf += '\n';
+
   int cs; 
   int act; 
-  int have = 0;
   int cur_line = 1;
   
   char *ts, *te = 0;
-  int done = 0;
 
   %% write init;
 
-  while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
-      /* We've used up the entire buffer storing an already-parsed token
-       * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
-    }
-
-    input->read(p,space);
-    len = input->gcount();
-    //len = fread( p, 1, space, *input );
-    pe = p + len;
-
-    /* Check if this is the end of file. */
-    if ( len < space ) {
-      eof = pe;
-      done = 1;
-    }
-            
-    %% write exec;
-
-    if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
-    }
-
-    if ( ts == 0 )
-      have = 0;
-    else {
-      /* There is a prefix to preserve, shift it over. */
-      have = pe - ts;
-      memmove( buf, ts, have );
-      te = buf + (te-ts);
-      ts = buf;
-    }
+  char *p = &buf[0], *pe = p + buf.size(), *eof = pe;
+
+  %% write exec;
+
+  if ( cs == deck_error ) {
+    std::cerr << "TOKENISER ERROR " << cur_line << "\n";
   }
 }
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index aa6c180..194cfcb 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <iostream>
+#include <iterator>
 #include <string>
 #include <cstring>
 #include <cstdio>
@@ -211,19 +212,17 @@ static const int deck_en_main = 10;
 
 
 
-#define BUFSIZE 128
-
-    
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::string buf((std::istreambuf_iterator<char>(*input)), std::istreambuf_iterator<char>());
+  // make sure that comments in the last line are terminated
+  buf += '\n';
+
   int cs; 
   int act; 
-  int have = 0;
   int cur_line = 1;
   
   char *ts, *te = 0;
-  int done = 0;
 
   
 
@@ -236,29 +235,8 @@ void DeckScanner::do_scan(TokenList &tlist)
 
 
 
-  while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
-      /* We've used up the entire buffer storing an already-parsed token
-       * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
-    }
+  char *p = &buf[0], *pe = p + buf.size(), *eof = pe;
 
-    input->read(p,space);
-    len = input->gcount();
-    //len = fread( p, 1, space, *input );
-    pe = p + len;
-
-    /* Check if this is the end of file. */
-    if ( len < space ) {
-      eof = pe;
-      done = 1;
-    }
-            
-    
 
 	{
 	int _klen;
@@ -547,19 +525,7 @@ _again:
 
 
 
-    if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
-    }
-
-    if ( ts == 0 )
-      have = 0;
-    else {
-      /* There is a prefix to preserve, shift it over. */
-      have = pe - ts;
-      memmove( buf, ts, have );
-      te = buf + (te-ts);
-      ts = buf;
-    }
+  if ( cs == deck_error ) {
+    std::cerr << "TOKENISER ERROR " << cur_line << "\n";
   }
 }
-- 
2.43.0


From 642dce0169b6e686bf507995111b3161595fcb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:07 +0000
Subject: [PATCH 25/51] fix: characters that are no token are a parser error

---
 parser/deckscanner.rl               | 7 ++++++-
 src/parser/internal/deckscanner.cpp | 7 ++++++-
 src/parser/tokenlist.hpp            | 6 ++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 141cee5..c7b51bd 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -10,6 +10,7 @@
 #include <cstdio>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
+#include "../parsertoken.hpp"
 #include "../tokenlist.hpp"
 
 using namespace schnek;
@@ -118,6 +119,10 @@ void DeckScanner::do_scan(TokenList &tlist)
   %% write exec;
 
   if ( cs == deck_error ) {
-    std::cerr << "TOKENISER ERROR " << cur_line << "\n";
+    throw ParserError("Unrecognised token", Token(tlist.getFilename(), cur_line, 0));
+  }
+
+  if ( ts != 0 ) {
+    throw ParserError("Unexpected end of file inside a token", Token(tlist.getFilename(), cur_line, 0));
   }
 }
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 194cfcb..c128f01 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -12,6 +12,7 @@
 #include <cstdio>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
+#include "../parsertoken.hpp"
 #include "../tokenlist.hpp"
 
 using namespace schnek;
@@ -526,6 +527,10 @@ _again:
 
 
   if ( cs == deck_error ) {
-    std::cerr << "TOKENISER ERROR " << cur_line << "\n";
+    throw ParserError("Unrecognised token", Token(tlist.getFilename(), cur_line, 0));
+  }
+
+  if ( ts != 0 ) {
+    throw ParserError("Unexpected end of file inside a token", Token(tlist.getFilename(), cur_line, 0));
   }
 }
diff --git a/src/parser/tokenlist.hpp b/src/parser/tokenlist.hpp
index 7dfcecd..6ca0c95 100644
--- a/src/parser/tokenlist.hpp
+++ b/src/parser/tokenlist.hpp
@@ -122,6 +122,12 @@ class TokenList
     /// Default constructor
     TokenList(std::string filename_) : filename(filename_) {}
 
+    /// Returns the name of the file that the tokens are read from
+    std::string getFilename() const
+    {
+      return filename;
+    }
+
     /// Empties the list and reassigns the filename
 
     void reset(std::string filename_)
-- 
2.43.0


From 1da7c0c5ef9dca06e06bf266a78e6d42dac63f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 26/51] fix: variables that depend on themselves are an
 evaluation error

---
 src/variables/dependencies.cpp | 683 +++++++++++++++++----------------
 1 file changed, 342 insertions(+), 341 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index e6db25e..30086c1 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,341 +1,342 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    assert(nextEval != 0);
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(dependencies[id]);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    if (nextEval == 0)
+      throw EvaluationException("Circular dependency between variables");
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0


From 741429703ad66c09c5e4e98adf5448fd4f5d3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 27/51] fix: making an update list must not add empty entries
 to the dependency map

---
 src/variables/dependencies.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 30086c1..210c698 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -152,6 +152,9 @@ DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSe
       // check if we already considered this variable
       if (predecessors.count(id) > 0) continue;
 
+      // constant variables don't take part in the update
+      if (dependencies.count(id) == 0) continue;
+
       // A negative id signals that the expression should be re-evaluated for every change.
       // To do this we add all independent variables to the predecessors list.
       if (id<0)
-- 
2.43.0


From 5f1ff216eda1b9fd0cd6fb9da8144b8af4e04e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 28/51] fix: dependency maps can be recreated

---
 src/variables/dependencies.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 210c698..688d723 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -52,11 +52,6 @@ DependencyMap::DependencyMap(const pBlockVariables vars)
   pVariable tmp(new Variable(pexp, true, true));
   dummyVar = tmp;
 
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
   blockVars = vars;
   constructMap(vars);
 }
@@ -92,6 +87,11 @@ void DependencyMap::constructMap(const pBlockVariables vars)
 {
   SCHNEK_TRACE_ENTER_FUNCTION(3);
 
+  dependencies.clear();
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
 
   constructMapRecursive(vars);
 
-- 
2.43.0


From f4d0a8c745ed24709ca8314d3ebcecd746f72c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 29/51] fix: looking for a variable uses the same path
 separator as getting it

---
 src/variables/variables.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index a6ab2fb..52dedab 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -154,7 +154,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
 bool BlockVariables::exists(std::string name)
 {
   std::list<std::string> path;
-  boost::split(path, name, boost::is_any_of("."));
+  boost::split(path, name, boost::is_any_of(":"));
   return exists(path, true);
 }
 
-- 
2.43.0


From 4580f36406cb22788e9a6780e6a327f8e51e265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:38 +0000
Subject: [PATCH 30/51] fix: a variable named e can be followed by a sign

---
 parser/deckscanner.rl               | 2 +-
 src/parser/internal/deckscanner.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index c7b51bd..50ecc5d 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -93,7 +93,7 @@ using namespace schnek;
 	# Match a floating point number.
 	float_exp = [eE] [+\-]? digit+;
 	float_dec = '.' digit* float_exp?;
-	digit* (float_dec | float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
+	(digit* float_dec | digit+ float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
 
 	*|;
 }%%
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index c128f01..b2af78e 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -121,7 +121,7 @@ static const char _deck_indicies[] = {
 	10, 8, 13, 12, 15, 16, 14, 15, 
 	16, 17, 14, 19, 0, 4, 21, 22, 
 	23, 24, 25, 26, 27, 28, 30, 31, 
-	33, 34, 32, 35, 33, 36, 37, 38, 
+	32, 34, 32, 35, 32, 36, 37, 38, 
 	39, 40, 41, 20, 29, 20, 32, 20, 
 	32, 20, 18, 43, 43, 27, 42, 10, 
 	42, 45, 12, 44, 27, 43, 43, 29, 
-- 
2.43.0


From 2d4fe0a2f10fd72a44b7540b534206a146df6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:08 +0000
Subject: [PATCH 31/51] fix: integer overflow in an expression is an evaluation
 error

---
 src/variables/expression.hpp | 19 ++++++++++++++++-
 src/variables/operators.hpp  | 41 +++++++++++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/variables/expression.hpp b/src/variables/expression.hpp
index 942dfb0..15acfdd 100644
--- a/src/variables/expression.hpp
+++ b/src/variables/expression.hpp
@@ -54,6 +54,7 @@
 #include <string>
 #include <iostream>
 #include <set>
+#include <limits>
 
 #undef LOGLEVEL
 #define LOGLEVEL 0
@@ -370,6 +371,14 @@ class BinaryOp : public Expression<vtype>
     }
 };
 
+/// Converts a floating point value to an integer, making sure that the value can be represented
+inline int doubleToInt(double a)
+{
+  if (!(a > std::numeric_limits<int>::min() - 1.0 && a < std::numeric_limits<int>::max() + 1.0))
+    throw TypeCastException();
+  return static_cast<int>(a);
+}
+
 template<class vtype>
 struct FastCast
 {
@@ -382,7 +391,7 @@ template<>
 struct FastCast<int>
 {
     int operator()(int a) { return a; }
-    int operator()(double a) { return static_cast<int>(a); }
+    int operator()(double a) { return doubleToInt(a); }
     int operator()(std::string a) { return boost::lexical_cast<int>(a); }
 };
 
@@ -412,6 +421,14 @@ struct StaticCast
     vtype operator()(const atype& a) { return static_cast<vtype>(a); }
 };
 
+template<>
+struct StaticCast<int>
+{
+  public:
+    int operator()(const int& a) { return a; }
+    int operator()(const double& a) { return doubleToInt(a); }
+};
+
 template<class vtype>
 struct LexicalCast
 {
diff --git a/src/variables/operators.hpp b/src/variables/operators.hpp
index 1a3c4f2..5111bae 100644
--- a/src/variables/operators.hpp
+++ b/src/variables/operators.hpp
@@ -32,6 +32,7 @@
 
 #include <memory>
 #include <cmath>
+#include <limits>
 
 #undef LOGLEVEL
 #define LOGLEVEL 0
@@ -211,11 +212,49 @@ namespace expression {
   }
 
 
+  /// Makes sure that the result of an operation on integers can be represented
+  inline int checkIntRange(long long val)
+  {
+      if (val < std::numeric_limits<int>::min() || val > std::numeric_limits<int>::max())
+        throw EvaluationException("Integer overflow");
+      return static_cast<int>(val);
+  }
+
+  template<>
+  inline int OperatorNeg<int>::eval(int val)
+  {
+      return checkIntRange(-static_cast<long long>(val));
+  }
+
+  template<>
+  inline int OperatorAdd<int>::eval(int val1, int val2)
+  {
+      return checkIntRange(static_cast<long long>(val1) + val2);
+  }
+
+  template<>
+  inline int OperatorSubtract<int>::eval(int val1, int val2)
+  {
+      return checkIntRange(static_cast<long long>(val1) - val2);
+  }
+
+  template<>
+  inline int OperatorMultiply<int>::eval(int val1, int val2)
+  {
+      return checkIntRange(static_cast<long long>(val1) * val2);
+  }
+
   template<>
   inline int OperatorDivide<int>::eval(int val1, int val2)
   {
       if (val2 == 0) throw EvaluationException("Division by zero");
-      return val1 / val2;
+      return checkIntRange(static_cast<long long>(val1) / val2);
+  }
+
+  template<>
+  inline int OperatorExponent<int>::eval(int val1, int val2)
+  {
+      return doubleToInt(pow(val1, val2));
   }
 
   template<>
-- 
2.43.0


From ce776df2a53f0c0e56b681ca6d50b6dc243c333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 32/51] fix: diagnostics without the time they depend on are
 reported

---
 src/diagnostic/diagnostic.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 106c62c..9a3e9ae 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -208,6 +208,12 @@ void DiagnosticManager::execute()
   if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime))
     throw schnek::VariableNotInitialisedException("In DiagnosticManager: A time counter or physical time must be specified!");
 
+  if (!timecounter && !intervalDiags.empty())
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: Interval diagnostics need a time counter!");
+
+  if (!physicalTime && !deltaTimeDiags.empty())
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: Delta time diagnostics need a physical time!");
+
   for(IntervalDiagnostic *diag: intervalDiags)
   {
     diag->execute(master, rank, *timecounter);
@@ -224,6 +230,8 @@ double DiagnosticManager::adjustDeltaT(double deltaT)
 {
   double adjustedDt = deltaT;
 
+  if (!physicalTime && !deltaTimeDiags.empty())
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: Delta time diagnostics need a physical time!");
 
   for(DeltaTimeDiagnostic *diag: deltaTimeDiags)
   {
-- 
2.43.0


From 823b0cf40c29e82b01cdd1fa29f8388fefcfa530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 33/51] fix: appending diagnostics open their file at the first
 execution

---
 src/diagnostic/diagnostic.cpp | 13 ++++++++++---
 src/diagnostic/diagnostic.hpp |  5 +++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 9a3e9ae..3253dfd 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -34,7 +34,7 @@
 using namespace schnek;
 
 DiagnosticInterface::DiagnosticInterface() :
-  fname(""), append(false)
+  fname(""), append(false), opened(false)
 {
 }
 
@@ -51,6 +51,13 @@ bool DiagnosticInterface::appending()
   return bool(append);
 }
 
+void DiagnosticInterface::openAppending()
+{
+  if (!appending() || opened) return;
+  open(fname);
+  opened = true;
+}
+
 std::string DiagnosticInterface::parsedFileName(int rank, int timeCounter)
 {
 
@@ -104,7 +111,7 @@ void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0 == timeCounter) && appending()) open(fname);
+  openAppending();
   if ((timeCounter < 0) || ((timeCounter % interval) == 0))
   {
     if (!appending()) open(parsedFileName(rank, timeCounter));
@@ -133,7 +140,7 @@ void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0.0 == physicalTime) && appending()) open(fname);
+  openAppending();
 
   if (physicalTime >= nextOutput)
   {
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index c5f7457..fe4b0f8 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -51,6 +51,9 @@ class DiagnosticInterface : public Block
     std::string fname;
     /// Append data at every write to the same file?
     int append;
+  private:
+    /// Has the file, that data is appended to, been opened?
+    bool opened;
   public:
     /// Default constructor
     DiagnosticInterface();
@@ -68,6 +71,8 @@ class DiagnosticInterface : public Block
     void initParameters(BlockParameters&);
 
     bool appending();
+    /// Opens the file, if data is appended to it and it has not been opened yet
+    void openAppending();
     std::string parsedFileName(int rank, int timeCounter);
     std::string parsedFileName(int rank, double physicalTime);
 };
-- 
2.43.0


From 0ede72e1652d57c7dc19273865c7630e5e3dde20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 34/51] fix: data written by a simple file diagnostic reaches
 the file

---
 src/diagnostic/diagnostic.t | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/diagnostic.t b/src/diagnostic/diagnostic.t
index d0b61bd..6842eb5 100644
--- a/src/diagnostic/diagnostic.t
+++ b/src/diagnostic/diagnostic.t
@@ -64,6 +64,7 @@ template<class Type, typename PointerType, class DiagnosticType>
 void SimpleFileDiagnostic<Type, PointerType, DiagnosticType>::write()
 {
   output << *(this->field);
+  output.flush();
 }
 
 template<class Type, typename PointerType, class DiagnosticType>
-- 
2.43.0


From 5bed23a3e3bf33d1fcaf7b2e02ecdcdecdce18ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 35/51] fix: destroyed diagnostics are no longer executed

---
 src/diagnostic/diagnostic.cpp | 20 ++++++++++++++++++++
 src/diagnostic/diagnostic.hpp |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 3253dfd..b4fa8a1 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -106,6 +106,11 @@ IntervalDiagnostic::IntervalDiagnostic() : interval(100)
   DiagnosticManager::instance().addIntervalDiagnostic(this);
 }
 
+IntervalDiagnostic::~IntervalDiagnostic()
+{
+  DiagnosticManager::instance().removeIntervalDiagnostic(this);
+}
+
 void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
 {
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
@@ -135,6 +140,11 @@ DeltaTimeDiagnostic::DeltaTimeDiagnostic() : deltaTime(1.0), nextOutput(0.0), co
   DiagnosticManager::instance().addDeltaTimeDiagnostic(this);
 }
 
+DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
+{
+  DiagnosticManager::instance().removeDeltaTimeDiagnostic(this);
+}
+
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
@@ -206,6 +216,16 @@ void DiagnosticManager::addDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
   deltaTimeDiags.push_back(diag);
 }
 
+void DiagnosticManager::removeIntervalDiagnostic(IntervalDiagnostic *diag)
+{
+  intervalDiags.remove(diag);
+}
+
+void DiagnosticManager::removeDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
+{
+  deltaTimeDiags.remove(diag);
+}
+
 void DiagnosticManager::execute()
 {
 
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index fe4b0f8..fe5773f 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -84,6 +84,7 @@ class IntervalDiagnostic : public DiagnosticInterface
     int interval;
   public:
     IntervalDiagnostic();
+    virtual ~IntervalDiagnostic();
     void execute(bool master, int rank, int timeCounter);
     int getInterval();
   protected:
@@ -99,6 +100,7 @@ class DeltaTimeDiagnostic : public DiagnosticInterface
     int count;
   public:
     DeltaTimeDiagnostic();
+    virtual ~DeltaTimeDiagnostic();
     void execute(bool master, int rank, double physicalTime);
     double getNextOutput();
     double getDeltaTime();
@@ -127,6 +129,8 @@ class DiagnosticManager : public Singleton<DiagnosticManager>
   public:
     void addIntervalDiagnostic(IntervalDiagnostic*);
     void addDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
+    void removeIntervalDiagnostic(IntervalDiagnostic*);
+    void removeDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
     void execute();
 
     void setTimeCounter(int *timecounter);
-- 
2.43.0


From 81675eae2d911338e5035e419211b413b26b9f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:31 +0000
Subject: [PATCH 36/51] fix: processes that do not write agree on the time of
 the next output

---
 src/diagnostic/diagnostic.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index b4fa8a1..1ce7056 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -148,15 +148,19 @@ DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
-  if (singleOut() && !master) return;
+  // all processes have to agree on the time of the next output
+  const bool output = master || !singleOut();
 
-  openAppending();
+  if (output) openAppending();
 
   if (physicalTime >= nextOutput)
   {
-    if (!appending()) open(parsedFileName(rank, count));
-    write();
-    if (!appending()) close();
+    if (output)
+    {
+      if (!appending()) open(parsedFileName(rank, count));
+      write();
+      if (!appending()) close();
+    }
     nextOutput += deltaTime;
     ++count;
   }
-- 
2.43.0


From 7571c3f61e8101bb4be800b85441de6f55f41789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:43 +0000
Subject: [PATCH 37/51] fix: HDF5 attributes are written collectively

Attributes were created by the process with rank 0 only. Changing metadata is collective in parallel HDF5, so the
processes hung when closing the file, and no attributes were written when rank 0 was not active.
---
 src/diagnostic/hdfdiagnostic.t | 36 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index cc6051a..d45bc4e 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -294,32 +294,26 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
 
   /* now write the attributes */
 
-  int mpi_rank = 0;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-  MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
-#endif
+  /* Creating and writing attributes modifies the metadata of the file, which is a collective operation */
+  typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
+  for(attPair p: attributes->attributes) {
+    HdfAttributes::Info &info = *(p.second);
 
-  if (mpi_rank==0) {
     /* Create the data space for the attribute. */
-    typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
-    for(attPair p: attributes->attributes) {
-      HdfAttributes::Info &info = *(p.second);
+    const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
+    /* Create a dataset attribute. */
+    const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
+                                           H5P_DEFAULT, H5P_DEFAULT);
 
-      const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
-      /* Create a dataset attribute. */
-      const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
-                                             H5P_DEFAULT, H5P_DEFAULT);
+    /* Write the attribute data. */
+    ret = H5Awrite(attribute_id, info.type, info.buffer);
+    assert(ret != -1);
 
-      /* Write the attribute data. */
-      ret = H5Awrite(attribute_id, info.type, info.buffer);
-      assert(ret != -1);
+    /* Close the attribute. */
+    H5Aclose(attribute_id);
 
-      /* Close the attribute. */
-      H5Aclose(attribute_id);
-
-      /* Close the dataspace. */
-      H5Sclose(dataspace_id);
-    }
+    /* Close the dataspace. */
+    H5Sclose(dataspace_id);
   }
 
   /* close dataset collectively */
-- 
2.43.0


From 0536336e3abd73a7cbb7971ffab161f79f01aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:43 +0000
Subject: [PATCH 38/51] fix: reading a grid on a process whose HDF5 stream is
 not active does nothing

---
 src/diagnostic/hdfdiagnostic.t | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index d45bc4e..b6db679 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -53,6 +53,10 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
+  if (!active) {
+    return;
+  }
+
   std::string dset_name = getNextBlockName();
 
   typedef typename FieldType::IndexType IndexType;
-- 
2.43.0


From 4145519efeb745624931bc646239b84ad3277fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:43 +0000
Subject: [PATCH 39/51] fix: opening an HDF5 output stream closes the file it
 had open

---
 src/diagnostic/hdfdiagnostic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 5107595..86179f2 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -268,6 +268,7 @@ HdfOStream::HdfOStream(const char* fname)
 }
 
 int HdfOStream::open(const char* fname) {
+  close();
   sets_count = 0;
 
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-- 
2.43.0


From ce95ddce3a40c4bd0a52552c2cdb0535945d2a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:44 +0000
Subject: [PATCH 40/51] fix: HDF5 streams use the communicator of the currently
 active processes

The second file was opened with the communicator of the first one, or with all processes when the active processes had
been chosen before the first file.
---
 src/diagnostic/hdfdiagnostic.cpp | 51 ++++++++++++++++----------------
 src/diagnostic/hdfdiagnostic.hpp |  4 ---
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 86179f2..9a4049e 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -171,6 +171,7 @@ void HdfStream::makeMPIGroup()
   delete[] inputArr;
 
   activeModified = false;
+  commSet = true;
 }
 #endif
 
@@ -280,42 +281,42 @@ int HdfOStream::open(const char* fname) {
 
   makeMPIGroup();
   if (active) {
-    int rank;
-    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
-
-    if (!initialised) {
-      /* setup file access template */
+    /* setup file access template */
 
-      plist_id = H5Pcreate(H5P_FILE_ACCESS);
+    hid_t plist_id = H5Pcreate(H5P_FILE_ACCESS);
 
-      H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
-      H5Pset_alignment(plist_id, align_threshold, alignment);
+    H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
+    H5Pset_alignment(plist_id, align_threshold, alignment);
 
-      MPI_Info_create(&mpi_info);
+    MPI_Info mpi_info;
+    MPI_Info_create(&mpi_info);
 
-      // MPI
-      const char access_style[]         = "access_style";
-      const char write_once[]           = "write_once";
-      const char collective_buffering[] = "collective_buffering";
-      const char strue[]                = "true";
-      const char cb_block_size[]        = "cb_block_size";
-      const char n1048576[]             = "1048576";
-      const char cb_buffer_size[]       = "cb_buffer_size";
-      const char n4194304[]             = "4194304";
+    // MPI
+    const char access_style[]         = "access_style";
+    const char write_once[]           = "write_once";
+    const char collective_buffering[] = "collective_buffering";
+    const char strue[]                = "true";
+    const char cb_block_size[]        = "cb_block_size";
+    const char n1048576[]             = "1048576";
+    const char cb_buffer_size[]       = "cb_buffer_size";
+    const char n4194304[]             = "4194304";
 
-      MPI_Info_set(mpi_info, access_style, write_once);
-      MPI_Info_set(mpi_info, collective_buffering, strue);
-      MPI_Info_set(mpi_info, cb_block_size, n1048576);
-      MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
+    MPI_Info_set(mpi_info, access_style, write_once);
+    MPI_Info_set(mpi_info, collective_buffering, strue);
+    MPI_Info_set(mpi_info, cb_block_size, n1048576);
+    MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
 
-      /* set Parallel access with communicator */
-      H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
-    }
+    /* set Parallel access with communicator */
+    H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
 
     /* open the file collectively */
     //H5Pset_fapl_mpiposix(plist_id, mpiComm, 0);
     file_id = H5Fcreate (fname, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id);
 
+    /* Release file-access template */
+    MPI_Info_free(&mpi_info);
+    H5Pclose(plist_id);
+
     if (!initialised) {
       dxpl_id = H5Pcreate(H5P_DATASET_XFER);
       SCHNEK_TRACE_LOG(3,"Data Transfer Property List Id (0) " << dxpl_id)
diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 47a4420..4d38e4d 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -205,10 +205,6 @@ class HdfIStream : public HdfStream {
 class HdfOStream : public HdfStream {
   private:
     hid_t dxpl_id;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    MPI_Info mpi_info;
-#endif
-    hid_t plist_id;
     bool initialised;
   public:
     /// constructor
-- 
2.43.0


From aafeea572131b546ed926735486aa9af444d9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:44 +0000
Subject: [PATCH 41/51] fix: copies of an HDF5 stream share the open file

Every copy closed the file of the original and wrote with uninitialised transfer properties, assignment leaked the open file.
---
 src/diagnostic/hdfdiagnostic.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 9a4049e..52725ef 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -59,15 +59,20 @@ HdfStream::HdfStream(const HdfStream& hdf)
     blockname(hdf.blockname),
     attributes(hdf.attributes),
     sets_count(hdf.sets_count),
-    active(true),
-    activeModified(false)
+    active(hdf.active),
+    activeModified(hdf.activeModified)
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    , commSet(false)
+    , mpiComm(hdf.mpiComm),
+    commSet(hdf.commSet)
 #endif
-{}
+{
+  if (file_id >= 0) H5Iinc_ref(file_id);
+}
 
 HdfStream &HdfStream::operator=(const HdfStream& hdf)
 {
+  if (hdf.file_id >= 0) H5Iinc_ref(hdf.file_id);
+  close();
   file_id = hdf.file_id;
   status = hdf.status;
   sets_count = hdf.sets_count;
@@ -259,7 +264,7 @@ HdfOStream::HdfOStream()
 {}
 
 HdfOStream::HdfOStream(const HdfOStream& hdf)
-  : HdfStream(hdf), initialised(hdf.initialised)
+  : HdfStream(hdf), dxpl_id(hdf.dxpl_id), initialised(hdf.initialised)
 {}
 
 HdfOStream::HdfOStream(const char* fname)
-- 
2.43.0


From ce7fef4e3650c9edc94985b46e99b16c364ec325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:20 +0000
Subject: [PATCH 42/51] fix: an appending HDF5 grid diagnostic writes more than
 one data set

Every write used the same name and the second one aborted.
---
 src/diagnostic/hdfdiagnostic.hpp | 2 ++
 src/diagnostic/hdfdiagnostic.t   | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 4d38e4d..499a0f6 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -233,6 +233,8 @@ class HDFGridDiagnostic : public SimpleDiagnostic<Type, Type, DiagnosticType> {
   protected:
     HdfOStream output;
     GridContainer<Type> container;
+    /// The name of the data set that is being written
+    std::string datasetName;
   protected:
     /// Open the output file
     void open(const std::string &);
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index b6db679..ef5f355 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -386,12 +386,19 @@ template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::open(const std::string &fname)
 {
   output.open(fname.c_str());
+  datasetName = this->getDatasetName();
+  output.setBlockName(datasetName);
 }
 
 template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::write()
 {
-  output.setBlockName(this->getDatasetName());
+  // when appending, the stream numbers the data sets with the same name
+  const std::string name = this->getDatasetName();
+  if (name != datasetName) {
+    datasetName = name;
+    output.setBlockName(datasetName);
+  }
   output.setAttributes(this->getAttributes());
   output.writeGrid(container);
 }
-- 
2.43.0


From 99a92dd8a13fd10126c7b81ff5315e93b301175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:04 +0000
Subject: [PATCH 43/51] fix: HDF5 files hold grids in the order of their
 indices for every storage order

The data of grids in Fortran order was written and read as if the last index was the fastest.
---
 src/diagnostic/hdfdiagnostic.hpp |  2 ++
 src/diagnostic/hdfdiagnostic.t   | 59 ++++++++++++++++++++++++++++++--
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 499a0f6..5b81091 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -41,6 +41,8 @@
 #endif
 
 #include <map>
+#include <string>
+#include <vector>
 
 namespace schnek {
 
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index ef5f355..3468b84 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -50,6 +50,57 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
   this->attributes[name] = info;
 }
 
+/**
+ * The data of a grid in the order that is expected by HDF5
+ *
+ * In HDF5 the last index is the fastest. Grids that are not stored like that are copied to a buffer.
+ */
+template<typename FieldType>
+class HdfGridData
+{
+  private:
+    typedef typename FieldType::IndexType IndexType;
+    typedef typename FieldType::value_type T;
+    FieldType &grid;
+    bool buffered;
+    std::vector<T> buffer;
+
+    template<class Func>
+    void forEach(Func func) {
+      const IndexType lo = grid.getLo();
+      const IndexType hi = grid.getHi();
+      IndexType pos = lo;
+      for (size_t n = 0; n < buffer.size(); ++n) {
+        func(grid.get(pos), buffer[n]);
+        int d = FieldType::Rank - 1;
+        while (d > 0 && pos[d] == hi[d]) {
+          pos[d] = lo[d];
+          --d;
+        }
+        ++pos[d];
+      }
+    }
+  public:
+    HdfGridData(FieldType &grid) : grid(grid), buffered(false)
+    {
+      ptrdiff_t stride = 1;
+      for (int i = FieldType::Rank - 1; i >= 0; --i) {
+        buffered = buffered || (grid.getDims(i) > 1 && grid.stride(i) != stride);
+        stride *= grid.getDims(i);
+      }
+
+      if (buffered) {
+        buffer.resize(stride);
+        forEach([](T &element, T &copy) { copy = element; });
+      }
+    }
+
+    T *get() { return buffered ? buffer.data() : grid.getRawData(); }
+
+    /// Copy data that has been read back into the grid
+    void store() { if (buffered) forEach([](T &element, T &copy) { element = copy; }); }
+};
+
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
@@ -105,7 +156,8 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
     }
   }
 
-  T *data = g.grid.getRawData();
+  HdfGridData<FieldType> gridData(g.grid);
+  T *data = gridData.get();
   hid_t ret;
 
   /* open the dataset collectively */
@@ -158,6 +210,8 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
   assert(ret != -1);
 #endif
 
+  gridData.store();
+
   /* close dataset collectively */
   ret=H5Dclose(dataset);
   assert(ret != -1);
@@ -223,7 +277,8 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
     }
   }
 
-  const T *data = g.grid.getRawData();
+  HdfGridData<FieldType> gridData(g.grid);
+  const T *data = gridData.get();
   hid_t ret;
 
   /* setup dimensionality object */
-- 
2.43.0


From 603b20dfae79b940fa0a636abd3e22c1d8d06ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:21 +0000
Subject: [PATCH 44/51] fix: HDF5 grid readers can be constructed

The constructor was declared but not defined.
---
 src/diagnostic/hdfdiagnostic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 5b81091..180a8a3 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -296,7 +296,7 @@ class HDFGridReader : public Block
     std::string fileName;
   public:
     /// Default constructor
-    HDFGridReader();
+    HDFGridReader() {}
     /// Virtual destructor
     virtual ~HDFGridReader() {}
   protected:
-- 
2.43.0


From 6649618ffd13e5f0bfe95db4df453278a93f629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:04 +0000
Subject: [PATCH 45/51] fix: literature references keep the school and
 organization they are given

---
 src/tools/literature.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index 4e363ca..f5c5920 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -597,7 +597,7 @@ class LiteratureInProceedings : public LiteratureReference
       setPages(pages);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
@@ -617,7 +617,7 @@ class LiteratureManual : public LiteratureReference
 
       setTitle(title);
       setAuthor(author);
-      setEdition(organization);
+      setOrganization(organization);
       setAddress(address);
       setEdition(edition);
       setYear(year);
@@ -639,7 +639,7 @@ class LiteratureMastersThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -683,7 +683,7 @@ class LiteraturePhdThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -713,7 +713,7 @@ class LiteratureProceedings : public LiteratureReference
       setSeries(series);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
-- 
2.43.0


From cbd81fb2029819423fb0b8d1ba5fa67aa99d9440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:04 +0000
Subject: [PATCH 46/51] fix: a plain literature reference has a defined
 publication type

---
 src/tools/literature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index f5c5920..033714e 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -78,8 +78,8 @@ private:
     std::string bibKey;
     PublicationType publType;
   public:
-    LiteratureReference() {}
-    LiteratureReference(std::string bibKey_) : bibKey(bibKey_) {}
+    LiteratureReference() : publType(misc) {}
+    LiteratureReference(std::string bibKey_) : bibKey(bibKey_), publType(misc) {}
 
     LiteratureReference(const LiteratureReference &ref) :
       address(ref.address),
-- 
2.43.0


From 04df32d9ae0b41b399293304809da32f3d4c7ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:11 +0000
Subject: [PATCH 47/51] fix: random numbers stay within their range

---
 src/functions.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 692ab2c..3b3fb80 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -30,14 +30,16 @@
 #include <cstdlib>
 
 
-static const double RAND_MAX2 = double(RAND_MAX)*double(RAND_MAX);
+static const double RAND_STEPS = double(RAND_MAX) + 1.0;
 
 double schnek::drand()
 {
-  return (double(rand()) +  double(RAND_MAX)*double(rand()))/RAND_MAX2;
+  return (double(rand()) +  RAND_STEPS*double(rand()))/(RAND_STEPS*RAND_STEPS);
 }
 
 int schnek::irand(int range)
 {
-  return int(drand()*range);
+  // drand() may round to one
+  const int result = int(drand()*range);
+  return (result < range) ? result : range-1;
 }
-- 
2.43.0


From 22553838d5012b107eaccb439c5106dcf8eaf70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:34 +0000
Subject: [PATCH 48/51] fix: keep the line endings of dependencies.cpp as they
 were

---
 src/variables/dependencies.cpp | 690 ++++++++++++++++-----------------
 1 file changed, 345 insertions(+), 345 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 688d723..48cb258 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,345 +1,345 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-  dependencies.clear();
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // constant variables don't take part in the update
-      if (dependencies.count(id) == 0) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    if (nextEval == 0)
-      throw EvaluationException("Circular dependency between variables");
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+  dependencies.clear();
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // constant variables don't take part in the update
+      if (dependencies.count(id) == 0) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(dependencies[id]);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    if (nextEval == 0)
+      throw EvaluationException("Circular dependency between variables");
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0


From 953b4ba6a36d6412e45001bb4b8c3f697f5ffb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:28 +0000
Subject: [PATCH 49/51] fix: arrays with elements that are not a number are not
 less than others

---
 src/grid/array.t | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grid/array.t b/src/grid/array.t
index 30cbe0b..85d0515 100644
--- a/src/grid/array.t
+++ b/src/grid/array.t
@@ -421,7 +421,8 @@ bool operator<(
   const schnek::Array<T2,Length,CheckingPolicy2>& arr2
 )
 {
-  for (size_t i=0; i<Length; ++i) if (arr1[i]>=arr2[i]) return false;
+  // the comparison is not negated because values may be unordered (not a number)
+  for (size_t i=0; i<Length; ++i) if (!(arr1[i]<arr2[i])) return false;
   return true;
 }
 
@@ -435,6 +436,7 @@ bool operator<=(
   const schnek::Array<T2,Length,CheckingPolicy2>& arr2
 )
 {
-  for (size_t i=0; i<Length; ++i) if (arr1[i]>arr2[i]) return false;
+  // the comparison is not negated because values may be unordered (not a number)
+  for (size_t i=0; i<Length; ++i) if (!(arr1[i]<=arr2[i])) return false;
   return true;
 }
-- 
2.43.0


From 8439af3641946e5897492119dd0d5dc507c02f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:28 +0000
Subject: [PATCH 50/51] fix: a position that is not a number lies in no range

---
 src/grid/range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index 62273af..95448db 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -94,7 +94,8 @@ class Range {
     bool inside(const LimitType &p) const
     {
       for (int i=0; i<rank; ++i)
-        if ((p[i]<lo[i]) || (p[i]>hi[i])) return false;
+        // written so that values that are not a number lie in no range
+        if (!((p[i]>=lo[i]) && (p[i]<=hi[i]))) return false;
 
       return true;
     }
-- 
2.43.0


From 2bcb51e8aab3eac886c03cbc4d12c8bee836851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:28 +0000
Subject: [PATCH 51/51] fix: ranges may reach up to the largest value of their
 limit type

---
 src/grid/iteration/range-iteration.hpp | 4 ++++
 src/grid/range.hpp                     | 9 +++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/grid/iteration/range-iteration.hpp b/src/grid/iteration/range-iteration.hpp
index 2e86ecd..e5de9fa 100644
--- a/src/grid/iteration/range-iteration.hpp
+++ b/src/grid/iteration/range-iteration.hpp
@@ -125,6 +125,8 @@ namespace schnek {
                 for (pos[idim]=lo; pos[idim]<=hi; ++pos[idim])
                 {
                     RangeCIterationPolicyImpl<rank, dim-1>::forEach(range, pos, func);
+                    // never step beyond hi, it may be the largest value of its type
+                    if (!(pos[idim]<hi)) break;
                 }            
             }
         };
@@ -186,6 +188,8 @@ namespace schnek {
                 for (pos[dim]=lo; pos[dim]<=hi; ++pos[dim])
                 {
                     RangeFortranIterationPolicyImpl<rank-1>::forEach(range, pos, func);
+                    // never step beyond hi, it may be the largest value of its type
+                    if (!(pos[dim]<hi)) break;
                 }            
             }
         };
diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index 95448db..da88ae6 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -317,12 +317,13 @@ class Range {
           while (d>0)
           {
             --d;
-            if (++pos[d] > domain.getHi()[d])
+            // never step beyond the upper limit, it may be the largest value of its type
+            if (pos[d] < domain.getHi()[d])
             {
-              pos[d] = domain.getLo()[d];
-            }
-            else
+              ++pos[d];
               return;
+            }
+            pos[d] = domain.getLo()[d];
           }
           atEnd = true;
         }
-- 
2.43.0

