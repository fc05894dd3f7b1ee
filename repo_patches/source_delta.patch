From baa8f8f6e77f213eed45560a16217908a03f82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 001/121] fix: a rejected addition leaves an identified
 collection unchanged

Identifiable::add inserted the new members before looking at their ids, so a
member with a duplicated or zero id stayed in the collection after the
exception and every later removal threw.
---
 src/core/group/Identifiable.h   |  1 +
 src/core/group/Identifiable.hpp | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 4e44dee..36a8a11 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -87,6 +87,7 @@ private:
     Id lastId_;
     std::map<Id, std::size_t> mapId_;
 
+    void checkIds_(const Group<T>&) const;
     void postprocess_(const std::size_t& pos);
     std::vector<std::size_t> getElemsId_(const std::vector<Id>&) const;
 };
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index a502457..61c9353 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -23,6 +23,7 @@
 
 #include "Error.h"
 
+#include <set>
 #include <string>
 
 namespace SEMBA {
@@ -158,6 +159,7 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
     std::size_t lastSize = this->size();
+    checkIds_(rhs);
     Group<T>::add(rhs);
     postprocess_(lastSize);
     return rhs;
@@ -166,6 +168,7 @@ Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>&& rhs) {
     std::size_t lastSize = this->size();
+    checkIds_(rhs);
     Group<T>::add(std::move(rhs));
     postprocess_(lastSize);
     return rhs;
@@ -230,6 +233,20 @@ void Identifiable<T,Id>::removeId(const std::vector<Id>& ids) {
     remove(getElemsId_(ids));
 }
 
+template<typename T, class Id>
+void Identifiable<T,Id>::checkIds_(const Group<T>& elems) const {
+    std::set<Id> ids;
+    for(std::size_t i = 0; i < elems.size(); i++) {
+        const Id id = elems.get(i)->getId();
+        if (id == Id(0)) {
+            throw typename Error::Id::Zero<Id>();
+        }
+        if (existId(id) || !ids.insert(id).second) {
+            throw typename Error::Id::Duplicated<Id>(id);
+        }
+    }
+}
+
 template<typename T, class Id>
 void Identifiable<T,Id>::postprocess_(const std::size_t& firstStep) {
     for(std::size_t i = firstStep; i < this->size(); i++) {
-- 
2.43.0


From e23651700be53f4a81a3ff5a43e465cf79004595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 002/121] fix: scaling a coordinate group rebuilds its position
 index

The index is ordered by position; a zero or negative factor changes the order
of the positions under it, so later searches missed coordinates.
---
 src/core/geometry/coordinate/Group.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index c017603..7c0a007 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -259,12 +259,15 @@ void Group<C>::remove(const std::vector<std::size_t>& pos) {
 
 template<typename C>
 void Group<C>::applyScalingFactor(const Math::Real factor) {
+    indexUnstr_.clear();
+    indexStr_.clear();
     for(std::size_t i = 0; i < this->size(); i++) {
         if (this->get(i)->template is<CoordR3>()) {
             CoordR3* ptr = this->get(i)->template castTo<CoordR3>();
             *ptr *= factor;
         }
     }
+    postprocess_(0);
 }
 
 template<typename C>
-- 
2.43.0


From 33fa84b8f3453e012de6223428d96a8a589a22db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 003/121] fix: padding the upper bound of a grid looks at the
 step of that bound

enlargeBound compared the requested size with getStep(d,b), the step of cell 0
or 1, whichever bound was enlarged: a grid of one cell failed an assertion, and
an irregular one was compared with an unrelated step.
---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index a3bcb1b..8ecd84b 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -637,7 +637,7 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
         boundCell = this->getNumCells()(d) - 1;
     }
     std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,b), siz) || siz == 0.0) {
+    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
         siz = getStep(d,boundCell);
         // Computes enlargement for a padding with same size.
         Math::Real nCellsFrac = std::abs(pad/siz);
-- 
2.43.0


From e7ffa04f0f77a8e9512a51437ec612db96df44ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 004/121] fix: a padding below the tolerance adds no step

The list of new steps is then empty and setAdditionalSteps wrote its first one.
---
 src/core/geometry/Grid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 8ecd84b..1db3721 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -123,6 +123,9 @@ void Grid<D>::setAdditionalSteps(
         const Math::Constants::CartesianBound b,
         const std::vector<Math::Real>& step) {
     const std::size_t nCells = step.size();
+    if (nCells == 0) {
+        return;
+    }
     std::vector<Math::Real> newPos(nCells);
     if (b == Math::Constants::U) {
         newPos[0] = pos_[d].back() + step[0];
-- 
2.43.0


From e0561e9665c6ce482cc466651ba8a4d9d3b3874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 005/121] fix: chopping a box gives the real positions of its
 parts

A box of reals was chopped into cells at the integer indices (getPos of a real
vector is the identity), and a box between two grid lines read the first of no
positions.
---
 src/core/geometry/Box.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 800f16c..2268751 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -401,6 +401,9 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     std::vector<Math::Real> pos[D];
     for (std::size_t d = 0; d < D; d++) {
         pos[d] = grid.getPosInRange(d, min_(d), max_(d));
+        if (pos[d].empty()) {
+            pos[d].push_back(min_(d));
+        }
         if (min_(d) != pos[d].front()) {
             std::vector<Math::Real> aux(1,min_(d));
             aux.insert(aux.end(), pos[d].begin(), pos[d].end());
@@ -421,8 +424,10 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     for (Math::Int i = 0; i < numBoxes(Math::Constants::x); i++) {
         for (Math::Int j = 0; j < numBoxes(Math::Constants::y); j++) {
             for (Math::Int k = 0; k < numBoxes(Math::Constants::z); k++) {
-                CVecTD minP = subGrid.getPos(CVecTD(i,j,k));
-                CVecTD maxP = subGrid.getPos(CVecTD(i+1,j+1,k+1));
+                typedef Math::Vector::Cartesian<Math::Int ,D> CVecID;
+                typedef Math::Vector::Cartesian<Math::Real,D> CVecRD;
+                CVecRD minP = subGrid.getPos(CVecID(i,j,k));
+                CVecRD maxP = subGrid.getPos(CVecID(i+1,j+1,k+1));
                 CVecTD minT, maxT;
                 for (std::size_t d = 0; d < D; d++) {
                     if (minP(d) >= min_(d)) {
-- 
2.43.0


From 5d3c28c846eff78452f2837a1e601a91443ce024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 006/121] fix: a grid built from a box and a step has no extra
 cell from rounding

ceil(length/step) of 3.0000000000000004 gave four cells; the tolerance that the
same constructor uses for missing cells now also applies to surplus ones.
---
 src/core/geometry/Grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 1db3721..e47cba7 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -44,7 +44,8 @@ Grid<D>::Grid(const BoxRD& box,
         if (dxyz(i) == (Math::Real) 0.0) {
             nCells = 1;
         } else {
-            nCells = ceil(boxLength / dxyz(i));
+            nCells = (std::size_t) Math::Util::ceil(boxLength / dxyz(i),
+                                                    tolerance);
             if (Math::Util::greater(boxLength, nCells*dxyz(i),
                     dxyz(i), tolerance)) {
                 nCells++;
-- 
2.43.0


From 4b7c402a7e6327efe984f122b3239a08fc0d58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 007/121] fix: negating a vector does not change the vector

---
 src/core/math/vector/Cartesian.h   | 2 +-
 src/core/math/vector/Cartesian.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/math/vector/Cartesian.h b/src/core/math/vector/Cartesian.h
index b5d7bc3..692faa2 100755
--- a/src/core/math/vector/Cartesian.h
+++ b/src/core/math/vector/Cartesian.h
@@ -64,7 +64,7 @@ public:
 
     Cartesian<T,D>  operator+(const T param) const;
     Cartesian<T,D>  operator+(const Cartesian<T,D>& param) const;
-    Cartesian<T,D>& operator-();
+    Cartesian<T,D>  operator-() const;
     Cartesian<T,D>  operator-(const T param) const;
     Cartesian<T,D>  operator-(const Cartesian<T,D>& param) const;
     Cartesian<T,D>  operator*(const T param) const;
diff --git a/src/core/math/vector/Cartesian.hpp b/src/core/math/vector/Cartesian.hpp
index 7cf1cd0..6fbc830 100755
--- a/src/core/math/vector/Cartesian.hpp
+++ b/src/core/math/vector/Cartesian.hpp
@@ -189,11 +189,12 @@ Cartesian<T,D> Cartesian<T,D>::operator+(const Cartesian<T,D>& param) const {
 }
 
 template <class T, std::size_t D>
-Cartesian<T,D>& Cartesian<T,D>::operator-() {
+Cartesian<T,D> Cartesian<T,D>::operator-() const {
+    Cartesian<T,D> res;
     for (std::size_t i = 0; i < D; i++) {
-        val[i] = - val[i];
+        res.val[i] = - val[i];
     }
-    return *this;
+    return res;
 }
 
 template <class T, std::size_t D>
-- 
2.43.0


From bae65a1d133ced2087eb0a552d32c8d83bebc0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 008/121] fix: sorting the rows of a matrix stays inside the
 matrix

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 src/core/math/matrix/Matrix.hpp  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index be8d999..2345aec 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -192,7 +192,7 @@ Dynamic<T>::copy(
 template<class T>
 Dynamic<T>&
 Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
-   sortRows_omp(0, nCols());
+   sortRows_omp(0, nCols()-1);
    removeRepeatedSortedRows();
    return *this;
 }
@@ -200,7 +200,7 @@ Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
 template<class T>
 void
 Dynamic<T>::sortAndRemoveRepeatedRows() {
-   this->sortRows(0, nCols());
+   this->sortRows(0, nCols()-1);
    removeRepeatedSortedRows();
 }
 
diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index dc4d0ab..ec0754e 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -224,7 +224,7 @@ template <class T>
 void Matrix<T>::sortRows() {
     // Orders array a with nr rows and nc columns. Ordering is performed
     // using column indicated in orCol as reference. In ascending order.
-    sortRows(0, nCols());
+    sortRows(0, nCols()-1);
 }
 
 template <class T>
@@ -308,7 +308,9 @@ void Matrix<T>::QSRows_(std::size_t p, std::size_t r,
                         const std::size_t iCol, const std::size_t lCol) {
     if (p < r) {
         std::size_t q = partitionRows_(p, r, iCol, lCol);
-        QSRows_(p, q - 1, iCol, lCol);
+        if (q > p) {
+            QSRows_(p, q - 1, iCol, lCol);
+        }
         QSRows_(q + 1, r, iCol, lCol);
     }
 }
-- 
2.43.0


From 3b709415f4b4e616eeb955506a8a73ba331a95d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 009/121] fix: removing repeated rows keeps the only row of a
 matrix

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 2345aec..8f624b4 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -212,7 +212,7 @@ Dynamic<T>::removeRepeatedSortedRows() {
    std::size_t nonRepeated = 0;
    std::size_t nCompared;
    if (nRows() <= 1 ) {
-      nCompared = 0;
+      return;
    } else {
       nCompared = nRows() - 1;
    }
-- 
2.43.0


From 9bcc03ece3af897be4674b93e72632d18610fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 010/121] fix: a matrix built from an array of rows allocates
 its values

---
 src/core/math/matrix/Dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 8f624b4..99a9a62 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -67,6 +67,7 @@ Dynamic<T>::Dynamic(std::size_t rows, std::size_t cols, T** values) {
    _nRows = rows;
    _nCols = cols;
    assert(values != nullptr);
+   _val = new T[_nRows * _nCols];
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < _nCols; j++) {
          val(i,j) = values[i][j];
-- 
2.43.0


From 98cf5361dda7354ae441036d3de396a734a4e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 011/121] fix: the Kronecker product has the size of the
 product

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 99a9a62..2ef3907 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -549,12 +549,12 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
 
 template<class T>
 Dynamic<T> Dynamic<T>::kron(Dynamic<T>& rhs) const {
-   Dynamic<T> res(_nRows + rhs._nRows, _nCols + rhs._nCols);
+   Dynamic<T> res(_nRows * rhs._nRows, _nCols * rhs._nCols);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < rhs._nRows; j++) {
          for (std::size_t k = 0; k < _nCols; k++) {
             for (std::size_t l = 0; l < rhs._nCols; l++) {
-               res(i*_nRows + j, k*_nCols + l) = val(i,k) * rhs(j,l);
+               res(i*rhs._nRows + j, k*rhs._nCols + l) = val(i,k) * rhs(j,l);
             }
          }
       }
-- 
2.43.0


From 5061e07d1153538f2284fd788efcdf21f5b630a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 012/121] fix: equal integer matrices compare equal

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 2ef3907..a64e4a2 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -443,7 +443,7 @@ bool Dynamic<T>::operator==(const Dynamic<T>& param) const {
       for (std::size_t i = 0; i < _nRows; i++) {
          for (std::size_t j = 0; j < _nCols; j++) {
             T diff = std::abs(this->operator()(i,j) - param(i,j));
-            res &= diff < std::numeric_limits<T>::epsilon() * 1e2;
+            res &= diff <= std::numeric_limits<T>::epsilon() * 1e2;
          }
       }
       return res;
-- 
2.43.0


From 3682ef7cc49cfd92e2413af84c876c3d4df48f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 013/121] fix: inverting a singular matrix always throws

---
 src/core/math/matrix/Matrix.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index ec0754e..a813728 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -85,10 +85,9 @@ T Matrix<T>::getDeterminant4x4() const {
 template <class T>
 void Matrix<T>::internal_() {
     assert(Matrix<T>::isSquare());
-    std::size_t *pivot = new std::size_t[nRows()];
-    factorizeLU_(pivot);
-    invertFactorized_(pivot);
-    delete [] pivot;
+    std::vector<std::size_t> pivot(nRows());
+    factorizeLU_(pivot.data());
+    invertFactorized_(pivot.data());
 }
 
 template<class T>
@@ -139,11 +138,10 @@ void Matrix<T>::factorizeLU_(std::size_t pivot[]) {
     }
     pivot[n-1] = n-1;
     if (val(n-1,n-1) == (T) 0.0) {
-        std::cout << "ERROR@Matrix<T>::factorizeToArray" << std::endl;
-        std::cout << "  Zero pivot on step " << n-1 << std::endl;
         printInfo();
-        assert(false);
-        exit (EXIT_FAILURE);
+        std::stringstream ss;
+        ss << "Zero pivot on step " << n-1;
+        throw std::out_of_range(ss.str());
     }
 }
 
-- 
2.43.0


From fa96ba0292581d079c01c5156e9cc2fc7577acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 014/121] fix: a matrix that is not square is not symmetric

---
 src/core/math/matrix/Matrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index a813728..0c7332e 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -419,6 +419,9 @@ bool Matrix<T>::isSquare() const {
 
 template <class T>
 bool Matrix<T>::isSymmetric() const {
+    if (!isSquare()) {
+        return false;
+    }
     for (std::size_t i = 0; i < nRows(); i++) {
         for (std::size_t j = 0; j < nRows(); j++) {
             if (val(i,j) != val(j,i)) {
-- 
2.43.0


From 1c76973a32dd03827837a980c73eafb32143ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 015/121] fix: the convolution with three or more values keeps
 its first terms

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index a64e4a2..abf351c 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -473,7 +473,7 @@ Dynamic<T> Dynamic<T>::convolute(const Dynamic<T> &param) const {
    for (j = 1; j <= _nRows + param._nRows - 1; j++) {
       if (j <= _nRows)
          min = j;
-      if (j + 1 - param._nRows >= 1)
+      if (j >= param._nRows)
          max = j + 1 - param._nRows;
       for (i = max; i <= min; i++)
          res(j-1,0) += val(i-1,0) * param(j-i,0);
-- 
2.43.0


From 7cb89676f3214950e7faf4a1f6a3571e727a2e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 016/121] fix: the QR factorization is the one of the matrix,
 not of its transpose

---
 src/core/math/matrix/Matrix.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index 0c7332e..0ea39dd 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -496,7 +496,10 @@ bool Matrix<T>::factorizeQR_(Matrix<T>& Q, Matrix<T>& R) {
 
     for (int i = 0; i < nCols; i++) {
         // u_i = a_i
-        a.push_back(this->cpRowToVector(i));
+        a.push_back(std::vector<T>(nCols));
+        for (int k = 0; k < nCols; k++) {
+            a[i][k] = val(k,i);
+        }
         u.push_back(a[i]);
 
         for (int j = 0; j <= i-1; j++) {
-- 
2.43.0


From 4ed29b4cc3d652e88a8360ebf266a6eea7ee1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 017/121] fix: a matrix times a vector has one value per row

---
 src/core/math/matrix/Static.h   | 2 +-
 src/core/math/matrix/Static.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/math/matrix/Static.h b/src/core/math/matrix/Static.h
index a97928c..58f8891 100755
--- a/src/core/math/matrix/Static.h
+++ b/src/core/math/matrix/Static.h
@@ -64,7 +64,7 @@ public:
    Static<T,ROWS,COLS>& operator*=(const T rhs);
    Static<T,ROWS,COLS>& operator/=(const T rhs);
    Static<T,ROWS,COLS> operator*(T rhs) const;
-   Vector::Cartesian<T,COLS> operator*(Vector::Cartesian<T,COLS> rhs) const;
+   Vector::Cartesian<T,ROWS> operator*(Vector::Cartesian<T,COLS> rhs) const;
    Static<T,ROWS,COLS> operator+(Static<T,ROWS,COLS> &rhs) const;
    Static<T,COLS,ROWS>& invert();
    Static<T,COLS,ROWS> transpose();
diff --git a/src/core/math/matrix/Static.hpp b/src/core/math/matrix/Static.hpp
index 78879e0..48ef541 100755
--- a/src/core/math/matrix/Static.hpp
+++ b/src/core/math/matrix/Static.hpp
@@ -243,9 +243,9 @@ Static<T,ROWS,COLS> Static<T,ROWS,COLS>::operator*(T param) const {
 }
 
 template<class T, std::size_t ROWS, std::size_t COLS>
-Vector::Cartesian<T,COLS> Static<T,ROWS,COLS>::operator*(
+Vector::Cartesian<T,ROWS> Static<T,ROWS,COLS>::operator*(
         Vector::Cartesian<T,COLS> rhs) const {
-    Vector::Cartesian<T,COLS> res;
+    Vector::Cartesian<T,ROWS> res;
     for (std::size_t i = 0; i < ROWS; i++) {
         for (std::size_t j = 0; j < COLS; j++) {
             res(i) += this->val(i,j)*rhs(j);
-- 
2.43.0


From f31f4357c411839725ab425a1998234bd07549cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 018/121] fix: removing zero monomials removes consecutive ones

---
 src/core/math/function/Polynomial.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 6610c6f..b7081cb 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -149,11 +149,13 @@ void Polynomial<T>::derive(std::size_t coord) {
 
 template<class T>
 void Polynomial<T>::removeZeros() {
-    for (std::size_t i = 0; i < nm_; i++)
+    for (std::size_t i = 0; i < nm_; )
         if (mv_[i] == 0) {
             nm_--;
             mv_.erase(mv_.begin() + i);
             mp_.erase(mp_.begin() + i);
+        } else {
+            i++;
         }
 }
 
-- 
2.43.0


From ec4571c5dd744a97b2ece9d45097384f6968c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 019/121] fix: products of polynomials sum monomials of the
 same power

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index b7081cb..2e29e0c 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -276,7 +276,7 @@ Matrix::Dynamic<T> Polynomial<T>::polynomialToMatrix() const {
     Matrix::Dynamic<T>  res(maxPower() + 1, 1);
     // Copies monomials to vector positions.
     for (std::size_t i = 0; i < nm_; i++)
-        res(mp_[i][0], 0) = mv_[i];
+        res(mp_[i][0], 0) += mv_[i];
     return res;
 }
 
-- 
2.43.0


From e0c66f408d8d623472efd377d382a89acfadbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 020/121] fix: the vertices of a side of a triangle are its end
 nodes

---
 src/core/math/simplex/Triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/simplex/Triangle.hpp b/src/core/math/simplex/Triangle.hpp
index 68d7b4d..4674c83 100755
--- a/src/core/math/simplex/Triangle.hpp
+++ b/src/core/math/simplex/Triangle.hpp
@@ -105,7 +105,7 @@ inline std::size_t Triangle<N>::vertex(std::size_t i) const {
 template<size_t N>
 inline std::size_t Triangle<N>::sideVertex(const std::size_t f,
                                                    const std::size_t i) const {
-    return sideNode(f,i);
+    return sideNode(f,i*N);
 }
 
 template <size_t N>
-- 
2.43.0


From 93c5b90bd15d9e3d91a6a3faa9309f2f48ed2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 021/121] fix: interpolation data read from a file is the data
 in the file

---
 src/core/math/function/LinearInterpolation.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/function/LinearInterpolation.hpp b/src/core/math/function/LinearInterpolation.hpp
index 7149542..8e60c3a 100755
--- a/src/core/math/function/LinearInterpolation.hpp
+++ b/src/core/math/function/LinearInterpolation.hpp
@@ -112,9 +112,8 @@ void LinearInterpolation<S, T>::initFromFile(
                                      std::string(" does not exist"));
     }
 
-    while (!iStream.eof()) {
-        std::pair<Real, Real> value;
-        iStream >> value.first >> value.second;
+    std::pair<Real, Real> value;
+    while (iStream >> value.first >> value.second) {
         value_.insert(value);
     }
 
-- 
2.43.0


From ff86fddcb0006c5bf67985db8fe65bd8c6855619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 022/121] fix: the spectrum of a delayed Gaussian has the phase
 of the DTFT

---
 src/core/math/function/Gaussian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Gaussian.cpp b/src/core/math/function/Gaussian.cpp
index bf0c303..2f60df3 100755
--- a/src/core/math/function/Gaussian.cpp
+++ b/src/core/math/function/Gaussian.cpp
@@ -84,7 +84,7 @@ Real Gaussian::getFreq() const {
 
 std::complex<Real> Gaussian::getFourier(const Real freq) const {
     const Real pi2 = (Real) 2.0 * Constants::pi;
-    const std::complex<Real> phase(0.0, getDelay() *pi2*freq);
+    const std::complex<Real> phase(0.0, - getDelay() *pi2*freq);
     const std::complex<Real> phaseShift = std::exp(phase);
     return getSpread() * std::sqrt(pi2)
             * phaseShift
-- 
2.43.0


From 719fb19e03ec63d3bb6951be7b14eb2094d57af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 023/121] fix: the lowest and highest vertex of an element
 follow the lexicographical order

---
 src/core/geometry/element/Element.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index d9347e1..f364cdb 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -99,6 +99,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMinV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::greater(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
@@ -119,6 +122,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMaxV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::lower(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
-- 
2.43.0


From da74d4f0a5364f3647b72f503b920c669757f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 024/121] fix: elements with a different number of coordinates
 are different

---
 src/core/geometry/element/Element.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index f364cdb..16c8cc4 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -43,6 +43,9 @@ bool Element<T>::operator==(const Base& rhs) const {
         return false;
     }
     const Element<T>* rhsPtr = rhs.castTo<Element<T>>();
+    if (this->numberOfCoordinates() != rhsPtr->numberOfCoordinates()) {
+        return false;
+    }
     bool res = true;
     res &= (this->getId() == rhsPtr->getId());
     for (std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-- 
2.43.0


From 7da465eb836c667aba8824b0aac06c3eafcc3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 025/121] fix: the side of an element has the vertices of that
 side

---
 src/core/geometry/element/Element.hpp | 8 ++++----
 src/core/geometry/element/Volume.hpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index 16c8cc4..401b48f 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -157,8 +157,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideCoordinates(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T,3>*>
-        res(numberOfSideCoordinates());
-    for (std::size_t i = 0; i < numberOfSideCoordinates(); i++) {
+        res(numberOfSideCoordinates(face));
+    for (std::size_t i = 0; i < numberOfSideCoordinates(face); i++) {
         res[i] = getSideV(face,i);
     }
     return res;
@@ -168,8 +168,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideVertices(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T, 3>*> res;
-    res.resize(numberOfSideVertices());
-    for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
+    res.resize(numberOfSideVertices(face));
+    for (std::size_t i = 0; i < numberOfSideVertices(face); i++) {
         res[i] = getSideVertex(face,i);
     }
     return res;
diff --git a/src/core/geometry/element/Volume.hpp b/src/core/geometry/element/Volume.hpp
index a0578dc..03dfa40 100755
--- a/src/core/geometry/element/Volume.hpp
+++ b/src/core/geometry/element/Volume.hpp
@@ -63,7 +63,7 @@ Math::Vector::Cartesian<T,3> Volume<T>::getSideNormal(
 template<class T>
 Box<T,3> Volume<T>::getBoundOfFace(const std::size_t face) const {
     Box<T,3> res;
-   for (std::size_t i = 0; i < this->numberOfSideCoordinates(); i++) {
+   for (std::size_t i = 0; i < this->numberOfSideCoordinates(face); i++) {
       res << this->getSideV(face,i)->pos();
    }
    return res;
-- 
2.43.0


From 8a12dba9720260262faa813acc9760c2759c80d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 026/121] fix: the second side of a line is its second vertex

---
 src/core/geometry/element/Line2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Line2.hpp b/src/core/geometry/element/Line2.hpp
index 13d7bd9..7325e8c 100755
--- a/src/core/geometry/element/Line2.hpp
+++ b/src/core/geometry/element/Line2.hpp
@@ -118,7 +118,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideV(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
@@ -131,7 +131,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideVertex(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
-- 
2.43.0


From d4259417998c55985188185193c03a60ed454400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 027/121] fix: only hexahedra with edges along the axes are
 regular

---
 src/core/geometry/element/Hexahedron8.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index e8ec60f..5dd9811 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -103,7 +103,7 @@ bool Hexahedron8<T>::isRegular() const {
     // Checks that all edges are aligned with one of the axis.
     static const Math::Vector::Cartesian<T,3> xAxe(1.0, 0.0, 0.0);
     static const Math::Vector::Cartesian<T,3> yAxe(0.0, 1.0, 0.0);
-    static const Math::Vector::Cartesian<T,3> zAxe(1.0, 0.0, 1.0);
+    static const Math::Vector::Cartesian<T,3> zAxe(0.0, 0.0, 1.0);
     for (std::size_t f = 0; f < numberOfFaces(); f++) {
         Math::Vector::Cartesian<T,3> first, second;
         Math::Vector::Cartesian<T,3> inc;
@@ -111,9 +111,9 @@ bool Hexahedron8<T>::isRegular() const {
             first = *getSideV(f, i);
             second = *getSideV(f, (i+1) % numberOfSideVertices());
             inc = (second - first).normalize();
-            if (!((std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
+            if (!(std::abs(std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
+            std::abs(std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
 
                 return false;
             }
-- 
2.43.0


From 1ac318089b349b7f04bf92222c75c9fa49444464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 028/121] fix: the area of a face of a hexahedron is the one of
 the whole face

---
 src/core/geometry/element/Hexahedron8.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index 5dd9811..0b7f4a0 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -161,8 +161,8 @@ const std::size_t i) const {
 template<class T>
 Math::Real Hexahedron8<T>::getAreaOfFace(const std::size_t f) const {
     Math::Vector::Cartesian<T,3> v1, v2;
-    v1 = getSideV(f,1)->pos() - getSideV(f,0)->pos();
-    v2 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v1 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v2 = getSideV(f,3)->pos() - getSideV(f,1)->pos();
     return ((Math::Real) 0.5 * (v1 ^ v2).norm());
 }
 
-- 
2.43.0


From 82c80522ea38128ab0ec53e8abf1c83b4998e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 029/121] fix: asking for the plane of a face of a tetrahedron
 does not leak

---
 src/core/geometry/element/Tetrahedron4.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Tetrahedron4.cpp b/src/core/geometry/element/Tetrahedron4.cpp
index 2974111..eb33ec9 100755
--- a/src/core/geometry/element/Tetrahedron4.cpp
+++ b/src/core/geometry/element/Tetrahedron4.cpp
@@ -103,7 +103,10 @@ bool Tetrahedron4::isCurvedFace(const std::size_t face) const {
 bool Tetrahedron4::isFaceContainedInPlane(
         const std::size_t face,
         const Math::Constants::CartesianPlane plane) const {
-    return getTri3Face(face)->isContainedInPlane(plane);
+    Triangle3* tri = getTri3Face(face);
+    const bool res = tri->isContainedInPlane(plane);
+    delete tri;
+    return res;
 }
 
 const CoordR3* Tetrahedron4::getSideV(const std::size_t f,
-- 
2.43.0


From 772004f7b1db6b48610e0c2d6e7601c424083004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 030/121] fix: conformal lines are built with the coordinates
 given

---
 src/core/geometry/element/LineConformal.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 25dff46..8956744 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -26,7 +26,7 @@ namespace Geometry {
 namespace Element {
 
 LineConformal::LineConformal() {
-    checkCoordinates();
+
 }
 
 LineConformal::LineConformal(const Id id,
@@ -47,7 +47,8 @@ LineConformal::LineConformal(const CoordI3* v[2],
                              const Math::CVecR3& norm,
                              const Layer* lay,
                              const Model* mat)
-:   Elem(lay, mat) {
+:   Elem(lay, mat),
+    LinI2(v) {
     checkCoordinates();
     norm_  = norm;
 }
-- 
2.43.0


From 5d5b877fa3d79bb3a2488dace5aeec307fa7094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 031/121] fix: checking that a polyhedron is closed stays
 inside the list of sides

---
 src/core/geometry/element/Polyhedron.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Polyhedron.cpp b/src/core/geometry/element/Polyhedron.cpp
index f7f5ba9..1b1ea9c 100755
--- a/src/core/geometry/element/Polyhedron.cpp
+++ b/src/core/geometry/element/Polyhedron.cpp
@@ -160,7 +160,7 @@ void Polyhedron::checkClosedness() const {
     }
     list.sortRows(0,1);
     for (std::size_t i = 0; i < nSidesInFaces; i += 2) {
-        if (list(i,0) != list(i+1,0) || list(i,1) != list(i+1,1)) {
+        if (i + 1 == nSidesInFaces || list(i,0) != list(i+1,0) || list(i,1) != list(i+1,1)) {
             throw Error::NotClosed();
         }
     }
-- 
2.43.0


From 4521d14920ef765ae76447a6965b019b89ec1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 032/121] fix: looking for a surface in a volume stays inside
 its faces

---
 src/core/geometry/element/Volume.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/element/Volume.hpp b/src/core/geometry/element/Volume.hpp
index 03dfa40..4b61152 100755
--- a/src/core/geometry/element/Volume.hpp
+++ b/src/core/geometry/element/Volume.hpp
@@ -73,6 +73,9 @@ template<class T>
 std::size_t Volume<T>::getFaceNumber(const Surface<T>* surf) const {
     // Checks each face. Order is not important.
     for (std::size_t f = 0; f < this->numberOfFaces(); f++) {
+        if (surf->numberOfVertices() > this->numberOfSideVertices(f)) {
+            continue;
+        }
         std::size_t vPresent = 0;
         for (std::size_t i = 0; i < surf->numberOfVertices(); i++) {
             for (std::size_t j = 0; j < surf->numberOfVertices(); j++) {
-- 
2.43.0


From 8144d2a9e04b3a4025cdd29076a454c69734beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 033/121] fix: the closest vertex is the closest one to the
 position given

---
 src/core/geometry/element/Group.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 8245c67..326d58a 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -221,9 +221,9 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     for (std::size_t b = 0; b < elems.size(); b++) {
         for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
             const CoordR3* candidate = elems(i)->getV(i);
-            if ((candidate->pos() - res->pos()).norm() < minDist) {
+            if ((candidate->pos() - pos).norm() < minDist) {
                 res = candidate;
-                minDist = (candidate->pos() - res->pos()).norm();
+                minDist = (candidate->pos() - pos).norm();
             }
         }
     }
-- 
2.43.0


From 4ba6af9fb75634df1912ab9b0a3d6669664d4f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 034/121] fix: a quadrilateral with an acute corner is not
 rectangular

---
 src/core/geometry/element/Surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Surface.hpp b/src/core/geometry/element/Surface.hpp
index 8ec523b..a0e8ebe 100755
--- a/src/core/geometry/element/Surface.hpp
+++ b/src/core/geometry/element/Surface.hpp
@@ -48,7 +48,7 @@ bool Surface<T>::isRectangular() const {
         Math::Vector::Cartesian<T,3> p2 = 
             this->getSideVertex((f+1)%4,1)->pos();
         Math::Real sProd = (Math::Real)(p2-p1).dot(p1 - p0);
-        if (Math::Util::greater(sProd, 0.0, 1.0)) {
+        if (Math::Util::greater(std::abs(sProd), 0.0, 1.0)) {
             return false;
         }
     }
-- 
2.43.0


From 603531a09358093322e4cc4da35515f6f19ff718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 035/121] fix: converted meshes use their own layers

---
 src/core/geometry/mesh/Structured.cpp   | 1 +
 src/core/geometry/mesh/Unstructured.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index d7f5185..ad387eb 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -106,6 +106,7 @@ Unstructured* Structured::getMeshUnstructured() const {
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
diff --git a/src/core/geometry/mesh/Unstructured.cpp b/src/core/geometry/mesh/Unstructured.cpp
index 6f55741..6b3d1e1 100755
--- a/src/core/geometry/mesh/Unstructured.cpp
+++ b/src/core/geometry/mesh/Unstructured.cpp
@@ -95,6 +95,7 @@ Structured* Unstructured::getMeshStructured(const Grid3& grid,
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
-- 
2.43.0


From 5a9f069f3b9fbef8d7744a6255330ec65f820ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 036/121] fix: the closest vertex is looked for in every
 element

---
 src/core/geometry/element/Group.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 326d58a..95165a1 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -219,8 +219,8 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     Math::Real minDist = std::numeric_limits<Math::Real>::infinity();
     Group<const ElemR> elems = this->template getOf<ElemR>();
     for (std::size_t b = 0; b < elems.size(); b++) {
-        for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
-            const CoordR3* candidate = elems(i)->getV(i);
+        for (std::size_t i = 0; i < elems(b)->numberOfCoordinates(); i++) {
+            const CoordR3* candidate = elems(b)->getV(i);
             if ((candidate->pos() - pos).norm() < minDist) {
                 res = candidate;
                 minDist = (candidate->pos() - pos).norm();
-- 
2.43.0


From 1f9a6b6d231d6ba62bf888a527f21c64d45349f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 037/121] fix: the order of the neighbours in a graph does not
 depend on memory addresses

---
 src/core/geometry/graph/Element.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/graph/Element.hpp b/src/core/geometry/graph/Element.hpp
index 6ba45b6..8747c21 100755
--- a/src/core/geometry/graph/Element.hpp
+++ b/src/core/geometry/graph/Element.hpp
@@ -84,13 +84,15 @@ void Element<ELEM,BOUND>::constructNeighbors() {
             }
         }
     }
+    neighbors_.clear();
     std::set<GraphElem*> neighbors;
     for (std::size_t i = 0; i < boundNeighbors_.size(); i++) {
         for (std::size_t j = 0; j < boundNeighbors_[i].size(); j++) {
-            neighbors.insert(boundNeighbors_[i][j]);
+            if (neighbors.insert(boundNeighbors_[i][j]).second) {
+                neighbors_.push_back(boundNeighbors_[i][j]);
+            }
         }
     }
-    neighbors_ = std::vector<GraphElem*>(neighbors.begin(), neighbors.end());
 }
 
 template<class ELEM, class BOUND>
-- 
2.43.0


From d79c49fd94816b3bc3972d79aea6dabf6e9ab0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 038/121] fix: assigning a graph copies it instead of sharing
 what it deletes

---
 src/core/geometry/graph/Graph.h   |  4 +++-
 src/core/geometry/graph/Graph.hpp | 26 +++++++++++++++++---------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/core/geometry/graph/Graph.h b/src/core/geometry/graph/Graph.h
index eddf1a7..d866be6 100755
--- a/src/core/geometry/graph/Graph.h
+++ b/src/core/geometry/graph/Graph.h
@@ -46,7 +46,7 @@ public:
 
     virtual Graph& init(const Group::Group<const Elem>& elems) = 0;
 
-    //Graph& operator=(const Graph&);
+    Graph& operator=(const Graph&);
 
     std::size_t numElems () const { return elems_.size();  }
     std::size_t numBounds() const { return bounds_.size(); }
@@ -65,6 +65,8 @@ protected:
     std::vector<GraphElem* > elems_;
     std::vector<GraphBound*> bounds_;
 
+    void clear();
+
 private:
     void cloneInfo(const Graph&);
 };
diff --git a/src/core/geometry/graph/Graph.hpp b/src/core/geometry/graph/Graph.hpp
index 3ec07d1..762c3ad 100755
--- a/src/core/geometry/graph/Graph.hpp
+++ b/src/core/geometry/graph/Graph.hpp
@@ -39,23 +39,31 @@ Graph<ELEM,BOUND>::Graph(const Graph& rhs) {
 
 template<class ELEM, class BOUND>
 Graph<ELEM,BOUND>::~Graph() {
+    clear();
+}
+
+template<class ELEM, class BOUND>
+Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    clear();
+    cloneInfo(rhs);
+    return *this;
+}
+
+template<class ELEM, class BOUND>
+void Graph<ELEM,BOUND>::clear() {
     for (std::size_t i = 0; i < elems_.size(); i++) {
         delete elems_[i];
     }
+    elems_.clear();
     for (std::size_t i = 0; i < bounds_.size(); i++) {
         delete bounds_[i];
     }
+    bounds_.clear();
 }
 
-//template<class ELEM, class BOUND>
-//Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
-//    if (this == &rhs) {
-//        return *this;
-//    }
-//    cloneInfo(rhs);
-//    return *this;
-//}
-
 template<class ELEM, class BOUND>
 void Graph<ELEM,BOUND>::printInfo() const {
     std::cout << "--- Graph Info ---" << std::endl;
-- 
2.43.0


From f2c1c8ad4fb09b705da075a33a494682c10ac38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 039/121] fix: building a graph again deletes what it held
 before

---
 src/core/geometry/graph/Vertices.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/geometry/graph/Vertices.hpp b/src/core/geometry/graph/Vertices.hpp
index 7f6647d..21a7fe2 100755
--- a/src/core/geometry/graph/Vertices.hpp
+++ b/src/core/geometry/graph/Vertices.hpp
@@ -48,8 +48,7 @@ Vertices<ELEM,BOUND>& Vertices<ELEM,BOUND>::init(
     GraphElem*   elemPtr;
     GraphBound*  boundPtr;
     std::map<CoordId, GraphBound*> map;
-    this->elems_.clear();
-    this->bounds_.clear();
+    this->clear();
     for (std::size_t s = 0; s < elems.size(); s++) {
         elemPtr = new GraphElem(elems(s), elems(s)->numberOfCoordinates());
         this->elems_.push_back(elemPtr);
-- 
2.43.0


From 7429ecd64b576c3e222b49ec323386fa01a5b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 040/121] fix: copied connectivities look into their own graph

---
 src/core/geometry/graph/Connectivities.cpp | 19 +++++++++++++++++++
 src/core/geometry/graph/Connectivities.h   |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index faaaef1..2d09882 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -41,6 +41,25 @@ Connectivities::~Connectivities() {
 Connectivities::Connectivities(const Group::Group<const ElemR>& eG) {
     // Generates graph.
     graph_.init(eG);
+    constructIndex_();
+}
+
+Connectivities::Connectivities(const Connectivities& rhs)
+:   graph_(rhs.graph_) {
+    constructIndex_();
+}
+
+Connectivities& Connectivities::operator=(const Connectivities& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    graph_ = rhs.graph_;
+    constructIndex_();
+    return *this;
+}
+
+void Connectivities::constructIndex_() {
+    index_.clear();
     for (std::size_t i = 0; i < graph_.numElems(); i++) {
         GraphElem* graphElem = graph_.elem(i);
         ElemId id = graphElem->elem()->getId();
diff --git a/src/core/geometry/graph/Connectivities.h b/src/core/geometry/graph/Connectivities.h
index 74133b5..838cee7 100755
--- a/src/core/geometry/graph/Connectivities.h
+++ b/src/core/geometry/graph/Connectivities.h
@@ -38,8 +38,11 @@ public:
 
     Connectivities();
     Connectivities(const Group::Group<const ElemR>& eG);
+    Connectivities(const Connectivities& rhs);
     virtual ~Connectivities();
 
+    Connectivities& operator=(const Connectivities& rhs);
+
     std::size_t size() const;
 
     // Returns face of volume matching given face.
@@ -61,6 +64,8 @@ private:
     Vertices<ElemR,CoordR3> graph_;
     std::map<ElemId, const GraphElem*> index_;
 
+    void constructIndex_();
+
     Face getMatchingFace_(
             const GraphElem* local,
             const std::vector<const CoordR3*> localSideV) const;
-- 
2.43.0


From 7c5cc20e7389985cb8e89f753b45002a98618fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 041/121] fix: a surface without volumes has no inner face
 instead of a null one dereferenced

---
 src/core/geometry/graph/Connectivities.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index 2d09882..ba9b3d8 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -68,6 +68,9 @@ void Connectivities::constructIndex_() {
 }
 
 Face Connectivities::getNeighFace(const Face& face) const {
+    if (face.first == nullptr) {
+        return Face(nullptr, 0);
+    }
     const ElemR* elem = face.first;
     const GraphElem* local = index_.find(elem->getId())->second;
     std::vector<const CoordR3*> localSideV =
@@ -77,6 +80,9 @@ Face Connectivities::getNeighFace(const Face& face) const {
 }
 
 const SurfR* Connectivities::getNeighSurf(const Face& face) const {
+    if (face.first == nullptr) {
+        return nullptr;
+    }
     const ElemR* elem = face.first;
     std::vector<const CoordR3*> localSideV =
         elem->getSideCoordinates(face.second);
@@ -99,6 +105,9 @@ Face Connectivities::getInnerFace(const SurfR* surf) const {
     const GraphElem* local = index_.find(surf->getId())->second;
     std::vector<const CoordR3*> localV = local->elem()->getCoordinates();
     Face face = getMatchingFace_(local, localV);
+    if (face.first == nullptr) {
+        return face;
+    }
     Math::CVecR3 faceNormal = face.first->getSideNormal(face.second);
     if ((surf->getNormal() == faceNormal) || isDomainBoundary(face)) {
         return face;
-- 
2.43.0


From 7fbcb19a13a204c91e793a85ec4d8d523b7ff8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 042/121] fix: the inner face of a surface does not depend on
 rounding of its normal

---
 src/core/geometry/graph/Connectivities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index ba9b3d8..3ae10fc 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -109,7 +109,7 @@ Face Connectivities::getInnerFace(const SurfR* surf) const {
         return face;
     }
     Math::CVecR3 faceNormal = face.first->getSideNormal(face.second);
-    if ((surf->getNormal() == faceNormal) || isDomainBoundary(face)) {
+    if ((surf->getNormal().dot(faceNormal) > 0.0) || isDomainBoundary(face)) {
         return face;
     } else {
         return getNeighFace(face);
-- 
2.43.0


From 3ca63d6072f512d45b43b10807d15fea90560485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 043/121] fix: a file without materials has no materials
 instead of a null collection dereferenced

---
 src/parser/json/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 8bac27e..6e4b1b4 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -188,10 +188,10 @@ Source::Group<>* Parser::readSources(
 }
 
 PhysicalModel::Group<>* Parser::readPhysicalModels(const json& j){
+    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     if (j.find("materials") == j.end()) {
-        return nullptr;
+        return res;
     }
-    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     json mats = j.at("materials");
     for (json::const_iterator it = mats.begin(); it != mats.end(); ++it) {
         res->add(readPhysicalModel( *it ));
-- 
2.43.0


From e3ad8f99f351f4e0d55409782f66781c46f282ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 044/121] fix: crystals are read with the label the interface
 writes

---
 src/parser/json/Parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 6e4b1b4..eb623b4 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -268,10 +268,14 @@ PhysicalModel::PhysicalModel* Parser::readPhysicalModel(const json& j) {
     {
         std::string str = j.at("anisotropicModel").get<std::string>();
         if (str.compare("Crystal")==0) {
+            // Files are written with relativePermittivityPrincipalAxes.
+            std::string key = "relativePermittivityPrincipalAxes";
+            if (j.find(key) == j.end()) {
+                key = "relativePermittiviy";
+            }
             return new PhysicalModel::Volume::AnisotropicCrystal(id, name,
                     strToLocalAxes(j.at("localAxes").get<std::string>()),
-                    strToCVecR3(
-                            j.at("relativePermittiviy").get<std::string>()),
+                    strToCVecR3(j.at(key).get<std::string>()),
                     j.at("crystalRelativePermeability").get<double>());
         } else if (str.compare("Ferrite")==0) {
             return new PhysicalModel::Volume::AnisotropicFerrite(id, name,
-- 
2.43.0


From 0b5fc1fc3ea02e7965fc7fa65128e7185ce9c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 045/121] fix: bulk magnetic current requests are not turned
 into electric ones

---
 src/core/outputRequest/BulkCurrent.cpp | 5 +++--
 src/core/outputRequest/BulkCurrent.h   | 3 ++-
 src/parser/json/Parser.cpp             | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/outputRequest/BulkCurrent.cpp b/src/core/outputRequest/BulkCurrent.cpp
index 74a71a4..1fe13d9 100755
--- a/src/core/outputRequest/BulkCurrent.cpp
+++ b/src/core/outputRequest/BulkCurrent.cpp
@@ -29,8 +29,9 @@ BulkCurrent::BulkCurrent(
         const std::string& name,
         const Geometry::Element::Group<const Geometry::Elem>& elem,
         const Math::Constants::CartesianAxis& dir,
-        const Math::UInt& skip)
-:   SEMBA::OutputRequest::Base(bulkCurrentElectric, name, domain),
+        const Math::UInt& skip,
+        const Type type)
+:   SEMBA::OutputRequest::Base(type, name, domain),
     Geometry::Element::Group<const Geometry::Elem>(elem) {
 
     dir_ = dir;
diff --git a/src/core/outputRequest/BulkCurrent.h b/src/core/outputRequest/BulkCurrent.h
index bf7be2d..1dfe936 100755
--- a/src/core/outputRequest/BulkCurrent.h
+++ b/src/core/outputRequest/BulkCurrent.h
@@ -33,7 +33,8 @@ public:
                 const std::string& name,
                 const Geometry::Element::Group<const Geometry::Elem>& box,
                 const Math::Constants::CartesianAxis& dir,
-                const Math::UInt& skip);
+                const Math::UInt& skip,
+                const Type type = bulkCurrentElectric);
     BulkCurrent(const BulkCurrent& rhs);
     virtual ~BulkCurrent();
 
diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index eb623b4..97c6ce9 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -396,18 +396,18 @@ OutputRequest::Base* Parser::readOutputRequest(
 			return new OutputRequest::BulkCurrent(domain, name,
 				boxToElemGroup(mesh, j.at("box").get<std::string>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else if (gidOutputType.compare("OutRq_on_point") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		}
 	}
 
-- 
2.43.0


From 3a0208a4597d32bcd0fea87c372978ceba8c8141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 046/121] fix: the magnetic weight of a coaxial port turns
 around the port's origin

---
 src/core/source/port/TEMCoaxial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 4d3c5d8..3746f15 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -74,7 +74,7 @@ Math::CVecR3 TEMCoaxial::getWeight(
     }
     case ExcitationMode::current:
     {
-        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ pos).normalize();
+        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ (pos - getOrigin())).normalize();
         return phiHat / (2.0 * Math::Constants::pi * rho);
     }
     default:
-- 
2.43.0


From ef95ab94a903ad7fef59d1eb41e816d521cf3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 047/121] fix: the radii of a coaxial port change only when its
 surface does

---
 src/core/source/port/TEMCoaxial.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 3746f15..aa67c7f 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -103,8 +103,17 @@ void TEMCoaxial::set(
     const Math::Real height = box.getMax()(Math::Constants::y) -
                               box.getMin()(Math::Constants::y);
     const Math::Real averageNewRadius = (width + height)/4;
-    innerRadius_ *= averageNewRadius;
-    outerRadius_ *= averageNewRadius;
+    if (this->size() > 0) {
+        const Math::CVecR3 oldDiagonal = this->getBound().getMax() -
+                                         this->getBound().getMin();
+        const Math::Real averageOldRadius =
+                (oldDiagonal(Math::Constants::x) +
+                 oldDiagonal(Math::Constants::y))/4;
+        if (averageOldRadius != 0.0) {
+            innerRadius_ *= averageNewRadius / averageOldRadius;
+            outerRadius_ *= averageNewRadius / averageOldRadius;
+        }
+    }
     const Math::CVecR3 averageNewOrigin = (box.getMax() + box.getMin()) / 2;
     origin_ = averageNewOrigin;
     //
-- 
2.43.0


From 376f48524f601bf7da4e1dea0d584c2729ab74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 048/121] fix: the hardness of a source on a line is printed
 from the hardness

---
 src/core/source/OnLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/OnLine.cpp b/src/core/source/OnLine.cpp
index 1fb47d0..902745c 100755
--- a/src/core/source/OnLine.cpp
+++ b/src/core/source/OnLine.cpp
@@ -77,7 +77,7 @@ std::string OnLine::getTypeStr() const {
 }
 
 std::string OnLine::getHardnessStr() const {
-    switch (type_) {
+    switch (hardness_) {
     case hard:
         return "Hard";
     default:
-- 
2.43.0


From 27c99e641fee33a18fe653741abf1494847399a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 049/121] fix: ports follow the scaling of the mesh they were
 read with

---
 src/core/parser/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/parser/Parser.cpp b/src/core/parser/Parser.cpp
index 8508c09..596f77f 100755
--- a/src/core/parser/Parser.cpp
+++ b/src/core/parser/Parser.cpp
@@ -65,6 +65,12 @@ void Parser::postReadOperations(Data& res) const {
                         "Unable to find geometryScalingFactor "
                         "during postReadOperations");
             }
+            // Ports keep the bounds of their elements, which have changed.
+            if (res.sources != nullptr) {
+                for (std::size_t i = 0; i < res.sources->size(); i++) {
+                    (*res.sources)(i)->set((*res.sources)(i)->elems());
+                }
+            }
         }
     }
 }
-- 
2.43.0


From ba5f973ada8c91dfb57554cd5ee3fcd4bb8563f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 050/121] fix: copies of a problem without a mesh keep its
 sources and requests

---
 src/core/Data.cpp | 64 +++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index 538db1a..938fcf7 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -54,25 +54,25 @@ Data::Data(const Data& rhs) {
         } else {
             mesh->reassignPointers();
         }
+    }
 
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
-            for (size_t i = 0; i < outputRequests->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                        (*outputRequests)(i)->elems();
-                mesh->reassign(outRqElems);
-                (*outputRequests)(i)->set(outRqElems);
-            }
+    if (rhs.outputRequests != nullptr) {
+        outputRequests = rhs.outputRequests->clone();
+        for (size_t i = 0; mesh != nullptr && i < outputRequests->size(); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> outRqElems =
+                    (*outputRequests)(i)->elems();
+            mesh->reassign(outRqElems);
+            (*outputRequests)(i)->set(outRqElems);
         }
+    }
 
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
-            for (size_t i = 0; i < sources->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                        (*sources)(i)->elems();
-                mesh->reassign(sourceElems);
-                (*sources)(i)->set(sourceElems);
-            }
+    if (rhs.sources != nullptr) {
+        sources = rhs.sources->clone();
+        for (size_t i = 0; mesh != nullptr && i < sources->size(); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> sourceElems =
+                    (*sources)(i)->elems();
+            mesh->reassign(sourceElems);
+            (*sources)(i)->set(sourceElems);
         }
     }
 
@@ -122,25 +122,25 @@ Data& Data::operator=(const Data& rhs) {
         } else {
             mesh->reassignPointers();
         }
+    }
 
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
-            for (size_t i = 0; i < outputRequests->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                        (*outputRequests)(i)->elems();
-                mesh->reassign(outRqElems);
-                (*outputRequests)(i)->set(outRqElems);
-            }
+    if (rhs.outputRequests != nullptr) {
+        outputRequests = rhs.outputRequests->clone();
+        for (size_t i = 0; mesh != nullptr && i < outputRequests->size(); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> outRqElems =
+                    (*outputRequests)(i)->elems();
+            mesh->reassign(outRqElems);
+            (*outputRequests)(i)->set(outRqElems);
         }
+    }
 
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
-            for (size_t i = 0; i < sources->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                        (*sources)(i)->elems();
-                mesh->reassign(sourceElems);
-                (*sources)(i)->set(sourceElems);
-            }
+    if (rhs.sources != nullptr) {
+        sources = rhs.sources->clone();
+        for (size_t i = 0; mesh != nullptr && i < sources->size(); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> sourceElems =
+                    (*sources)(i)->elems();
+            mesh->reassign(sourceElems);
+            (*sources)(i)->set(sourceElems);
         }
     }
 
-- 
2.43.0


From b1f5069e2f84cf4adb069bffbf4fb6f239bf2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:49 +0000
Subject: [PATCH 051/121] fix: assigning a problem frees the one that was there

---
 src/core/Data.cpp | 50 ++++++++---------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index 938fcf7..0eb693f 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -21,6 +21,8 @@
 
 #include "Data.h"
 
+#include <utility>
+
 namespace SEMBA {
 
 Data::Data() {
@@ -101,48 +103,12 @@ Data& Data::operator=(const Data& rhs) {
         return *this;
     }
 
-    solver = nullptr;
-    mesh = nullptr;
-    physicalModels = nullptr;
-    sources = nullptr;
-    outputRequests = nullptr;
-
-    if (rhs.solver != nullptr) {
-        solver = new Solver::Info(*rhs.solver);
-    }
-
-    if (rhs.physicalModels != nullptr) {
-        physicalModels = rhs.physicalModels->clone();
-    }
-
-    if (rhs.mesh != nullptr) {
-        mesh = rhs.mesh->cloneTo<Geometry::Mesh::Mesh>();
-        if (physicalModels != nullptr) {
-            mesh->reassignPointers(*physicalModels);
-        } else {
-            mesh->reassignPointers();
-        }
-    }
-
-    if (rhs.outputRequests != nullptr) {
-        outputRequests = rhs.outputRequests->clone();
-        for (size_t i = 0; mesh != nullptr && i < outputRequests->size(); ++i) {
-            Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                    (*outputRequests)(i)->elems();
-            mesh->reassign(outRqElems);
-            (*outputRequests)(i)->set(outRqElems);
-        }
-    }
-
-    if (rhs.sources != nullptr) {
-        sources = rhs.sources->clone();
-        for (size_t i = 0; mesh != nullptr && i < sources->size(); ++i) {
-            Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                    (*sources)(i)->elems();
-            mesh->reassign(sourceElems);
-            (*sources)(i)->set(sourceElems);
-        }
-    }
+    Data copy(rhs);
+    std::swap(solver,         copy.solver);
+    std::swap(mesh,           copy.mesh);
+    std::swap(physicalModels, copy.physicalModels);
+    std::swap(sources,        copy.sources);
+    std::swap(outputRequests, copy.outputRequests);
 
     return *this;
 }
-- 
2.43.0


From e39c55f5d7b5cb9daa11244537c806b04f1ba18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 052/121] fix: a file that is not JSON is refused instead of
 read as far as it goes

---
 src/parser/json/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 97c6ce9..91432ef 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -60,6 +60,7 @@ Data Parser::read(std::istream& stream) const {
     }
     catch( const std::exception & ex ) {
         std::cerr << ex.what() << std::endl;
+        throw;
     }
 
     Util::ProgressBar progress;
@@ -624,6 +625,7 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         }
         catch (const std::exception& ex) {
             std::cerr << ex.what() << std::endl;
+            throw;
         }
         std::vector<Math::Real> pos[3];
         pos[0] = jsonGridPos.at("xs").get<std::vector<double>>();
-- 
2.43.0


From d8ace7ef7ed1d36ccb9cf2034ff24ad638c350b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 053/121] fix: an empty list of grids is refused instead of
 dereferenced

---
 src/parser/json/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 91432ef..23ad485 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -543,6 +543,9 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         throw std::logic_error("Grids object not found.");
     }
 
+    if (j.at("grids").empty()) {
+        throw std::logic_error("Grids object is empty.");
+    }
     json g = j.at("grids").front();
     std::string gridType = g.at("gridType").get<std::string>();
     if (gridType.compare("gridCondition") == 0) {
-- 
2.43.0


From 6e9df8736aa035095a5f3560bfa07b00aee81314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 054/121] fix: grids without cells are refused instead of
 padded

---
 src/parser/json/Parser.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 23ad485..996f01c 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -552,9 +552,16 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         // Initializes basic grid.
         Geometry::Grid3 res;
         if (g.at("type").get<std::string>().compare("Number_of_cells") == 0) {
+            Math::CVecI3 numberOfCells =
+                strToCVecI3(g.at("numberOfCells").get<std::string>());
+            for (std::size_t i = 0; i < 3; i++) {
+                if (numberOfCells(i) < 1) {
+                    throw std::logic_error("Number of cells must be positive.");
+                }
+            }
             res = Geometry::Grid3(
                     strToBox(g.at("layerBox").get<std::string>()),
-                    strToCVecI3(g.at("numberOfCells").get<std::string>()));
+                    numberOfCells);
         } else {
             Geometry::BoxR3 box = strToBox(g.at("layerBox").get<std::string>());
             Math::CVecR3 stepSize = 
@@ -584,6 +591,11 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
                 boundaryPadding.first  *= boundaryMeshSize.first;
                 boundaryPadding.second *= boundaryMeshSize.second;
             }
+            for (std::size_t i = 0; i < 3; i++) {
+                if (res.getNumCells()(i) < 1) {
+                    throw std::logic_error("Grid has zero size.");
+                }
+            }
             res.enlarge(boundaryPadding, boundaryMeshSize);
         }
 
-- 
2.43.0


From 28f5c34b6022ca13bdb182cece8226b53e3c90b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 055/121] fix: a grid with lines in some directions only is
 refused

---
 src/parser/json/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 996f01c..e13e893 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -615,8 +615,11 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         pos[0] = g.at("xCoordinates").get<std::vector<double>>();
         pos[1] = g.at("yCoordinates").get<std::vector<double>>();
         pos[2] = g.at("zCoordinates").get<std::vector<double>>();
-        if (!pos[0].empty()) {
+        if (!pos[0].empty() && !pos[1].empty() && !pos[2].empty()) {
             return Geometry::Grid3(pos);
+        } else if (!pos[0].empty() || !pos[1].empty() || !pos[2].empty()) {
+            throw std::logic_error(
+                "Grid had empty positions in at least one direction");
         } else {
             std::pair<Math::CVecR3, Math::CVecR3> box =
             { corner, corner + boxSize };
-- 
2.43.0


From 556cd0d50ff56d9ea2d496a579efff353be2e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 056/121] fix: coaxial ports out of a XY plane are refused when
 made, not when copied

---
 src/core/source/port/TEMCoaxial.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index aa67c7f..bb83968 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -38,6 +38,14 @@ TEMCoaxial::TEMCoaxial(
     origin_ = origin;
     innerRadius_ = innerRadius;
     outerRadius_ = outerRadius;
+    // Performs checks
+    if (elem.size() > 0) {
+        const Geometry::BoxR3 box = elem.getBound();
+        const Math::CVecR3 diagonal = box.getMax() - box.getMin();
+        if (!diagonal.isContainedInPlane(Math::Constants::CartesianPlane::xy)) {
+            throw std::logic_error("Port is not contained in a XY plane");
+        }
+    }
 }
 
 TEMCoaxial::TEMCoaxial(
-- 
2.43.0


From 7350a31c23bc1a0704f4497617704dd03a73c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 057/121] fix: STL facets without three vertices are refused

---
 src/parser/stl/Parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index ef2a5af..326832e 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -76,8 +76,7 @@ Data Parser::read(std::istream& stl) const {
                 if (trim(line) == "outer loop") {
                     std::vector<const Geometry::CoordR3*> coord;
                     coord.reserve(3);
-                    while (stl.peek() != EOF && label != "endloop") {
-                        stl >> label;
+                    while (stl >> label && label != "endloop") {
                         if (label == "vertex") {
                             Math::CVecR3 pos;
                             stl >> pos(Math::Constants::x)
@@ -86,6 +85,10 @@ Data Parser::read(std::istream& stl) const {
                             coord.push_back(cG.getPos(pos));
                         }
                     }
+                    if (label != "endloop" || coord.size() != 3) {
+                        throw std::runtime_error(
+                                "STL facets must have three vertices.");
+                    }
                     label.clear();
                     eG.addId(new Geometry::Tri3(Geometry::ElemId(0),
                                                 &coord[0], lay));
-- 
2.43.0


From 5f1232c57299bcf96609b94de5c99511b46e57da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 058/121] fix: STL vertices without three numbers are refused

---
 src/parser/stl/Parser.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index 326832e..6509f23 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -44,14 +44,16 @@ Data Parser::read(std::istream& stl) const {
                                     std::istreambuf_iterator<char>(), '\n');
     vertices.reserve(nLines);
 	
+    stl.clear();
     stl.seekg(0); // Rewinds.
-    while (stl.peek() != EOF) {
-        stl >> label;
+    while (stl >> label) {
         if (label == "vertex") {
             Math::CVecR3 vertex;
-            stl >> vertex(Math::Constants::x)
-                >> vertex(Math::Constants::y)
-                >> vertex(Math::Constants::z);
+            if (!(stl >> vertex(Math::Constants::x)
+                      >> vertex(Math::Constants::y)
+                      >> vertex(Math::Constants::z))) {
+                throw std::runtime_error("STL vertices must have three numbers.");
+            }
             vertices.push_back(vertex);
         }
     }
-- 
2.43.0


From b2a6c9217697906586e87cc589a1906cde655a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 059/121] fix: each solid of an STL file is read to a layer of
 its own

---
 src/parser/stl/Parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index 6509f23..6bb98f9 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -65,8 +65,7 @@ Data Parser::read(std::istream& stl) const {
 	stl.seekg(0); // Rewinds.
 	Geometry::Layer::Group<Geometry::Layer::Layer> lG;
     Geometry::Element::Group<Geometry::ElemR> eG;
-    while (stl.peek() != EOF) {
-        stl >> label;
+    while (stl >> label) {
         if (label == "solid") {
             std::string layerName;
             stl >> layerName;
@@ -75,7 +74,11 @@ Data Parser::read(std::istream& stl) const {
             std::string line;
             while (stl.peek() != EOF) {
                 std::getline(stl, line);
-                if (trim(line) == "outer loop") {
+                trim(line);
+                if (line.compare(0, 8, "endsolid") == 0) {
+                    break;
+                }
+                if (line == "outer loop") {
                     std::vector<const Geometry::CoordR3*> coord;
                     coord.reserve(3);
                     while (stl >> label && label != "endloop") {
-- 
2.43.0


From 3f3e7c3b65cec1fb6e094c07b3c2947bddf9944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:22 +0000
Subject: [PATCH 060/121] fix: an STL solid without a name does not take the
 name from its first facet

---
 src/parser/stl/Parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index 6bb98f9..3e7a3bb 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -21,6 +21,8 @@
 
 #include "Parser.h"
 
+#include <sstream>
+
 namespace SEMBA {
 namespace Parser {
 namespace STL {
@@ -67,11 +69,11 @@ Data Parser::read(std::istream& stl) const {
     Geometry::Element::Group<Geometry::ElemR> eG;
     while (stl >> label) {
         if (label == "solid") {
-            std::string layerName;
-            stl >> layerName;
+            std::string line, layerName;
+            std::getline(stl, line);
+            std::stringstream(line) >> layerName;
             Geometry::Layer::Layer* lay = 
                 lG.addId(new Geometry::Layer::Layer(layerName))(0);
-            std::string line;
             while (stl.peek() != EOF) {
                 std::getline(stl, line);
                 trim(line);
-- 
2.43.0


From 2e8403134214b8b380e26de4b6056b3bb41a6c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 061/121] fix: an STL vertex that is not found is added instead
 of dereferenced

---
 src/parser/stl/Parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index 3e7a3bb..6ae889b 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -89,7 +89,13 @@ Data Parser::read(std::istream& stl) const {
                             stl >> pos(Math::Constants::x)
                                 >> pos(Math::Constants::y)
                                 >> pos(Math::Constants::z);
-                            coord.push_back(cG.getPos(pos));
+                            // Vertices that differ by about the tolerance
+                            // may not be found.
+                            const Geometry::CoordR3* vertex = cG.getPos(pos);
+                            if (vertex == nullptr) {
+                                vertex = cG.addPos(pos);
+                            }
+                            coord.push_back(vertex);
                         }
                     }
                     if (label != "endloop" || coord.size() != 3) {
-- 
2.43.0


From 666246738a8b41b3b29c954eeaba82f28a345f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 062/121] fix: sets with the same name do not overwrite one
 another's VTK file

---
 src/exporter/vtk/Exporter.cpp | 7 ++++++-
 src/exporter/vtk/Exporter.h   | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index d39d262..8b0e64f 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -156,12 +156,17 @@ void Exporter::writeMesh_(const Data* smb) {
 }
 
 void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
-                          const std::string& name,
+                          const std::string& setName,
                           std::ofstream& outMain,
                           std::size_t& part) {
     if (elems.empty()) {
         return;
     }
+    // Sets having the same name are stored in different files.
+    std::string name = setName;
+    for (std::size_t i = 2; !written_.insert(name).second; i++) {
+        name = setName + "_" + std::to_string(i);
+    }
     outMain << "    " << "<DataSet "
             << "group=\"" << name << "\" "
             << "part=\"" << part++ << "\" "
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index cbc6f77..6231dc7 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -25,6 +25,7 @@
 #include <fstream>
 #include <utility>
 #include <algorithm>
+#include <set>
 
 #include "exporter/Exporter.h"
 #include "Data.h"
@@ -77,6 +78,8 @@ private:
             std::map<Geometry::CoordId, std::size_t>& mapCoords);
 
     static std::string makeValid_(const std::string&);
+
+    std::set<std::string> written_;
 };
 
 } /* namespace VTK */
-- 
2.43.0


From d817c2b53b295d72303ee353fd535b3f1aecf824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 063/121] fix: names of VTK files do not break the XML of their
 collection

---
 src/exporter/vtk/Exporter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 8b0e64f..4046590 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -295,7 +295,14 @@ void Exporter::writeCells_(
 
 std::string Exporter::makeValid_(const std::string& allocator) {
     std::string res = allocator;
-    std::replace(res.begin(), res.end(), '/', '_');
+    for (std::size_t i = 0; i < res.size(); i++) {
+        // Characters that can be part neither of a file name nor of an
+        // XML attribute.
+        if (std::string("/\\\"<>&").find(res[i]) != std::string::npos ||
+            (unsigned char) res[i] < ' ') {
+            res[i] = '_';
+        }
+    }
     return res;
 }
 
-- 
2.43.0


From 10dc20e50368ecb376d6d7dfe569925b98b5c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 064/121] fix: a VTK export that cannot be written is an error

---
 src/exporter/vtk/Exporter.cpp | 17 ++++++++++-------
 src/exporter/vtk/Exporter.h   |  1 +
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 4046590..27580d5 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -57,22 +57,24 @@ void Exporter::writeMesh_(const Data* smb) {
     const Geometry::Grid3* grid = nullptr;
     assert(inMesh != nullptr);
     assert(mat != nullptr);
-    const Geometry::Mesh::Unstructured* mesh;
+    std::unique_ptr<const Geometry::Mesh::Unstructured> mesh;
     const Geometry::Mesh::Structured* meshStr;
     std::string preName;
     if (inMesh->is<Geometry::Mesh::Structured>()) {
         meshStr = inMesh->castTo<Geometry::Mesh::Structured>();
-        mesh = meshStr->getMeshUnstructured();
+        mesh.reset(meshStr->getMeshUnstructured());
         preName = "str_";
         grid = &inMesh->castTo<Geometry::Mesh::Structured>()->grid();
     } else {
         meshStr = nullptr;
-        mesh = inMesh->cloneTo<Geometry::Mesh::Unstructured>();
+        mesh.reset(inMesh->cloneTo<Geometry::Mesh::Unstructured>());
         grid = nullptr;
     }
 
     std::string filename = getFilename() + ".pvd";
-    std::ofstream outFile(filename.c_str());
+    std::ofstream outFile;
+    outFile.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+    outFile.open(filename.c_str());
     outFile << "<?xml version=\"1.0\"?>" << std::endl;
     outFile << "<VTKFile "
             << "type=\"Collection\" "
@@ -151,8 +153,7 @@ void Exporter::writeMesh_(const Data* smb) {
     // Closes file.
     outFile << "  " << "</Collection>" << std::endl;
     outFile << "</VTKFile>" << std::endl;
-
-    delete mesh;
+    outFile.close();
 }
 
 void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
@@ -175,7 +176,9 @@ void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
             << "/>" << std::endl;
 
     std::string filename = getFilename() + ".vtk" + Separator + name + ".vtu";
-    std::ofstream outFile(filename.c_str());
+    std::ofstream outFile;
+    outFile.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+    outFile.open(filename.c_str());
     outFile << "<VTKFile "
             << "type=\"UnstructuredGrid\" "
             << "version=\"0.1\" "
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index 6231dc7..734981b 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -25,6 +25,7 @@
 #include <fstream>
 #include <utility>
 #include <algorithm>
+#include <memory>
 #include <set>
 
 #include "exporter/Exporter.h"
-- 
2.43.0


From e6c52f1e252e44765974c71e4f237a40cb9a7900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 065/121] fix: exporting to GiD does not rescale the mesh of
 the user

---
 src/exporter/gid/Exporter.cpp | 14 ++++++++------
 src/exporter/gid/Exporter.h   |  1 +
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 995e699..edc3d85 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -68,10 +68,12 @@ void Exporter::init_(
         throw std::logic_error("Invalid GiD exporting mode.");
     }
 
-    Math::Real scalingFactor =
+    // Positions are written in the units of the input, without changing the
+    // mesh.
+    scalingFactor_ =
         smb->solver->getSettings()("geometryScalingFactor").getReal();
-    if (scalingFactor != 0.0) {
-        smb->mesh->applyScalingFactor(1.0 / scalingFactor);
+    if (scalingFactor_ == 0.0) {
+        scalingFactor_ = 1.0;
     }
     writeMesh_(smb);
 }
@@ -323,9 +325,9 @@ void Exporter::writeCoordinates_(Geometry::CoordR3Group& cG)  {
     GiD_fBeginCoordinates(meshFile_);
     for (std::size_t i = 0; i < cG.size(); i++) {
         GiD_fWriteCoordinates(meshFile_, ++coordCounter_,
-                (*cG(i))(Math::Constants::x),
-				(*cG(i))(Math::Constants::y),
-				(*cG(i))(Math::Constants::z));
+                (*cG(i))(Math::Constants::x) / scalingFactor_,
+				(*cG(i))(Math::Constants::y) / scalingFactor_,
+				(*cG(i))(Math::Constants::z) / scalingFactor_);
     }
     GiD_fEndCoordinates(meshFile_);
 }
diff --git a/src/exporter/gid/Exporter.h b/src/exporter/gid/Exporter.h
index 2414a3b..239c333 100755
--- a/src/exporter/gid/Exporter.h
+++ b/src/exporter/gid/Exporter.h
@@ -67,6 +67,7 @@ private:
     GiD_FILE meshFile_;
     GiD_FILE resultFile_;
     GiD_PostMode mode_;
+    Math::Real scalingFactor_;
 
     void init_(const Data* smb, GiD_PostMode mode, const std::string& fn);
     void writeMesh_(const Data* smb);
-- 
2.43.0


From ec96cdfbe3cc3af0e14617692fc0d4bb653e1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 066/121] fix: problems without a scaling factor can be
 exported to GiD

---
 src/exporter/gid/Exporter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index edc3d85..4b00de7 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -70,8 +70,13 @@ void Exporter::init_(
 
     // Positions are written in the units of the input, without changing the
     // mesh.
-    scalingFactor_ =
-        smb->solver->getSettings()("geometryScalingFactor").getReal();
+    scalingFactor_ = 1.0;
+    if (smb->solver != nullptr) {
+        const Solver::Settings& settings = smb->solver->getSettings();
+        if (settings.existsName("geometryScalingFactor")) {
+            scalingFactor_ = settings("geometryScalingFactor").getReal();
+        }
+    }
     if (scalingFactor_ == 0.0) {
         scalingFactor_ = 1.0;
     }
-- 
2.43.0


From e0c30bb91feedca1351bff158dca85b8995976d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 067/121] fix: a GiD file that can not be opened is an error

---
 src/exporter/gid/Exporter.cpp | 10 +++++++++-
 src/exporter/gid/Exporter.h   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 4b00de7..4b12833 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -67,6 +67,10 @@ void Exporter::init_(
     default:
         throw std::logic_error("Invalid GiD exporting mode.");
     }
+    if (meshFile_ == 0) {
+        release_();
+        throw std::logic_error("GiD file can not be written: " + fn);
+    }
 
     // Positions are written in the units of the input, without changing the
     // mesh.
@@ -99,11 +103,15 @@ Exporter::~Exporter() {
     default:
         GiD_fClosePostResultFile(resultFile_);
     }
+    release_();
+    GiD_fClosePostMeshFile(meshFile_);
+}
+
+void Exporter::release_() {
     if (numberOfOutputGiD_ == 1) {
         GiD_PostDone();
     }
     numberOfOutputGiD_--;
-    GiD_fClosePostMeshFile(meshFile_);
 }
 
 void Exporter::writeAllElements_(
diff --git a/src/exporter/gid/Exporter.h b/src/exporter/gid/Exporter.h
index 239c333..34143a8 100755
--- a/src/exporter/gid/Exporter.h
+++ b/src/exporter/gid/Exporter.h
@@ -69,6 +69,7 @@ private:
     GiD_PostMode mode_;
     Math::Real scalingFactor_;
 
+    static void release_();
     void init_(const Data* smb, GiD_PostMode mode, const std::string& fn);
     void writeMesh_(const Data* smb);
     void writeElements_(
-- 
2.43.0


From 4de5ad9e57d7a8c908229787da23ce2f52aee540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 068/121] fix: line breaks in names do not break GiD files

---
 src/exporter/gid/Exporter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 4b12833..f579f83 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -256,9 +256,10 @@ void Exporter::beginMesh(
         GiD_ElementType elementType,
         Math::Int nNode,
         const Math::CVecR3& colorRGB) const {
+    const std::string validName = makeValid_(name);
     char *tName;
-    tName = new char[name.length() + 1];
-    strcpy(tName, name.c_str());
+    tName = new char[validName.length() + 1];
+    strcpy(tName, validName.c_str());
     if (colorRGB == Math::CVecR3(0.0, 0.0, 0.0)) {
         GiD_fBeginMesh(meshFile_, tName, dim, elementType, nNode);
     } else {
-- 
2.43.0


From c0cf92f490af3a2cbfcb666592d2edbe1512b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 069/121] fix: the GiD file being written is the one flushed,
 and closed once

---
 src/exporter/gid/Exporter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index f579f83..1cec4a4 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -104,7 +104,6 @@ Exporter::~Exporter() {
         GiD_fClosePostResultFile(resultFile_);
     }
     release_();
-    GiD_fClosePostMeshFile(meshFile_);
 }
 
 void Exporter::release_() {
@@ -203,7 +202,7 @@ void Exporter::writeMesh_(const Data* smb) {
     Group::Group<Geometry::ElemR> gridAux = getGridElems(cG, grid);
     writeAllElements_(gridAux, "Grid");
     //
-    GiD_FlushPostFile();
+    flushPostFile();
     //
     if (inMesh->is<Geometry::Mesh::Structured>()) {
         delete mesh;
-- 
2.43.0


From a926feed06613b59bbd296f34c3169ea41ab74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 070/121] fix: an assigned source has its own magnitude

---
 src/core/source/Source.cpp | 14 ++++++++++++++
 src/core/source/Source.h   |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/core/source/Source.cpp b/src/core/source/Source.cpp
index 56f6cbf..8f2e4f3 100755
--- a/src/core/source/Source.cpp
+++ b/src/core/source/Source.cpp
@@ -48,6 +48,20 @@ Base::~Base() {
     }
 }
 
+Base& Base::operator=(const Base& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    const Magnitude::Magnitude* orig = magnitude_;
+    if (rhs.magnitude_ != nullptr) {
+        magnitude_ = rhs.magnitude_->cloneTo<Magnitude::Magnitude>();
+    } else {
+        magnitude_ = nullptr;
+    }
+    delete orig;
+    return *this;
+}
+
 std::string Base::getMagnitudeFilename() const {
     const Magnitude::Numerical* mag =
             dynamic_cast<const Magnitude::Numerical*>(magnitude_);
diff --git a/src/core/source/Source.h b/src/core/source/Source.h
index 5b81f53..0a8b937 100755
--- a/src/core/source/Source.h
+++ b/src/core/source/Source.h
@@ -46,6 +46,8 @@ public:
     Base(const Base& rhs);
     virtual ~Base();
 
+    Base& operator=(const Base& rhs);
+
     virtual Geometry::Element::Group<const Geometry::Elem> elems() const = 0;
 
     virtual void set(
-- 
2.43.0


From ce8d59d1bb5ed14c7eed013444c7675c67f56142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 071/121] fix: magnitudes without a function can be copied, and
 assigned ones do not leak

---
 src/core/source/magnitude/Magnitude.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 4f3b63c..6538323 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -34,8 +34,11 @@ Magnitude::Magnitude(Math::FunctionRR* mathFunction) {
 }
 
 Magnitude::Magnitude(const Magnitude& rhs) {
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
 }
 
 Magnitude::~Magnitude() {
@@ -48,18 +51,28 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    Math::FunctionRR* orig = mathFunction_;
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
+    delete orig;
     return *this;
 }
 
 bool Magnitude::operator ==(const Magnitude& rhs) const {
+    if (mathFunction_ == nullptr || rhs.mathFunction_ == nullptr) {
+        return mathFunction_ == rhs.mathFunction_;
+    }
     return *mathFunction_ == *rhs.mathFunction_;
 }
 
 void Magnitude::printInfo() const {
     std::cout << " --- Magnitude ---" << std::endl;
-    mathFunction_->printInfo();
+    if (mathFunction_ != nullptr) {
+        mathFunction_->printInfo();
+    }
 }
 
 Math::Real Magnitude::evaluate(const Math::Real time) const {
-- 
2.43.0


From b7c9f3f5288c57c3756995cdba93827caf942908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 072/121] fix: the magnetic field of a plane wave does not
 depend on the length of its direction vector

---
 src/core/source/PlaneWave.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/source/PlaneWave.cpp b/src/core/source/PlaneWave.cpp
index 1bc8e16..56ec3d8 100755
--- a/src/core/source/PlaneWave.cpp
+++ b/src/core/source/PlaneWave.cpp
@@ -137,7 +137,8 @@ std::pair<Math::CVecR3, Math::CVecR3>
 PlaneWave::getElectromagneticField(const Math::Real time) const {
     Math::CVecR3 electric = getElectricField(time);
     Math::CVecR3 magnetic = (direction_ ^ electric) *
-                            Math::Constants::VACUUM_ADMITANCE;
+                            (Math::Constants::VACUUM_ADMITANCE /
+                             direction_.norm());
     return std::pair<Math::CVecR3,Math::CVecR3>(electric, magnetic);
 }
 
-- 
2.43.0


From e466609dc46f0f8df26bac4d0d5f3a909a159ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 073/121] fix: perpendicularity of a plane wave does not depend
 on the length of its vectors

---
 src/core/source/PlaneWave.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/source/PlaneWave.cpp b/src/core/source/PlaneWave.cpp
index 56ec3d8..a655022 100755
--- a/src/core/source/PlaneWave.cpp
+++ b/src/core/source/PlaneWave.cpp
@@ -184,7 +184,8 @@ void PlaneWave::init_(Math::CVecR3 direction, Math::CVecR3 polarization) {
     if (direction_.norm() == 0) {
         throw Error::PlaneWave::ZeroMagnitude();
     }
-    Math::Real dotProd = direction.dot(polarization);
+    Math::Real dotProd = direction.dot(polarization) /
+                         (direction.norm() * polarization.norm());
     if (Math::Util::notEqual(dotProd, 0.0)) {
         throw Error::PlaneWave::NotPerpendicular();
     }
-- 
2.43.0


From 59ff7fe91906483e66ea2a58ebcbebb994ae6808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 074/121] fix: a magnitude converted to numerical keeps its
 first and last values

---
 src/core/source/magnitude/Numerical.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index d07d98c..f0b1728 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -40,7 +40,7 @@ Numerical::Numerical(const FileSystem::Project& file)
 
 Numerical::Numerical(const FileSystem::Project& file,
                      const Magnitude& mag,
-                     const Math::Real timeStep,
+                     const Math::Real step,
                      const Math::Real finalTime)
 :   FileSystem::Project(file) {
 
@@ -49,10 +49,12 @@ Numerical::Numerical(const FileSystem::Project& file,
         return;
     }
     std::size_t nSteps;
+    Math::Real timeStep = step;
     if (timeStep != 0.0) {
         nSteps = (std::size_t)std::abs(finalTime / timeStep);
     } else {
         nSteps = defaultNumberOfSteps;
+        timeStep = finalTime / nSteps;
         std::cerr << "WARNING @ Numerical: "
                   << "Attempting to build a "
                   << "numerical magnitude with a 0.0 step."
@@ -81,7 +83,8 @@ Numerical::Numerical(const FileSystem::Project& file,
         const Math::Real current = mag.evaluate(time);
         bool isAligned = Math::Util::equal(current, interpolated,
                 0.0, std::numeric_limits<Math::Real>::epsilon());
-        if (!isAligned) {
+        // First and last values are always needed to interpolate.
+        if (!isAligned || i == 0 || i + 1 == nSteps) {
             out << std::setw(16) << std::setfill(' ') << time 
                 << std::setw(18) << std::setfill(' ') << current 
                 << std::endl;
-- 
2.43.0


From a026262078dd0aa9a7b67d8a187b6d5593c8a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 075/121] fix: transverse electric field of TM waveguide modes
 is irrotational

---
 src/core/source/port/WaveguideRectangular.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 9f6b991..ef3beb5 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -83,7 +83,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
         res(Math::Constants::x) = - m * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
-        res(Math::Constants::y) = - m * sin(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::y) = - n * sin(m * rPos(Math::Constants::x)) *
                                         cos(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::z) = (Math::Real) 0.0;
-- 
2.43.0


From ba45eeb5dc70c0a9116f5a1cca069275f3ac1011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 076/121] fix: electric field of TE waveguide modes is
 divergence free

---
 src/core/source/port/WaveguideRectangular.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index ef3beb5..b343e94 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -72,7 +72,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
     }
     //const Math::Real betaC = sqrt(pow(m,2) + pow(n,2));
     if (getExcitationMode() == Waveguide::TE) {
-        res(Math::Constants::x) =   n * cos(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::x) = - n * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::y) =   m * sin(m * rPos(Math::Constants::x)) *
-- 
2.43.0


From d2ee3c64026fc97653db7a3250e9433d07b2682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 077/121] fix: a dispersive material keeps the conductivity it
 is built with

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 4e1973c..6de146b 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -47,7 +47,8 @@ Dispersive::Dispersive(const Id id,
     if (magnCond != 0.0) {
         throw std::logic_error("Dispersive magnetic materials not implemented");
     }
-    poleResidue_ = poleResidue;
+    poleResidue_.insert(poleResidue_.end(),
+                        poleResidue.begin(), poleResidue.end());
 }
 
 Dispersive::Dispersive(const Id id,
-- 
2.43.0


From 8cdae794a6c9bd9b71bda563a0b2dbe3bfcecf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 078/121] fix: a dispersive material without poles can be asked
 whether it is classic

---
 src/core/physicalModel/volume/Dispersive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 6de146b..d6ac94a 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -105,7 +105,10 @@ bool Dispersive::isSimplyConductive() const {
     if (!file_.empty()) {
         return false;
     }
-    return (poleResidue_.size() <= 1 && std::abs(getPole(0)) == 0);
+    if (poleResidue_.empty()) {
+        return true;
+    }
+    return (poleResidue_.size() == 1 && std::abs(getPole(0)) == 0);
 }
 
 Math::Real Dispersive::getElectricConductivity() const {
-- 
2.43.0


From 41e3cc7402b452e3f175e6ac1b371971dc2aea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 079/121] fix: an end of a wire can be set from an end of the
 same wire

---
 src/core/physicalModel/wire/Extremes.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index ab96df8..061d0ee 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -65,13 +65,12 @@ Extremes::~Extremes() {
 
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
-    if (extreme_[i] != nullptr) {
-        delete extreme_[i];
-    }
+    const Multiport::Multiport* orig = extreme_[i];
     extreme_[i] = nullptr;
     if (extreme != nullptr) {
         extreme_[i] = extreme->cloneTo<Multiport::Multiport>();
     }
+    delete orig;
 }
 
 void Extremes::swapExtremes() {
-- 
2.43.0


From 9d713a73a5f9aabc9dda87565ae6ceb1bc3c3e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 080/121] fix: an assigned wire with extremes has ends of its
 own

---
 src/core/physicalModel/wire/Extremes.cpp | 10 ++++++++++
 src/core/physicalModel/wire/Extremes.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index 061d0ee..ed0eb2c 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -63,6 +63,16 @@ Extremes::~Extremes() {
     }
 }
 
+Extremes& Extremes::operator=(const Extremes& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    Wire::operator=(rhs);
+    setExtreme(0, rhs.extreme_[0]);
+    setExtreme(1, rhs.extreme_[1]);
+    return *this;
+}
+
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
     const Multiport::Multiport* orig = extreme_[i];
diff --git a/src/core/physicalModel/wire/Extremes.h b/src/core/physicalModel/wire/Extremes.h
index 26d0b05..84a8f6b 100755
--- a/src/core/physicalModel/wire/Extremes.h
+++ b/src/core/physicalModel/wire/Extremes.h
@@ -38,6 +38,8 @@ public:
     Extremes(const Extremes& rhs);
     virtual ~Extremes();
 
+    Extremes& operator=(const Extremes& rhs);
+
     SEMBA_CLASS_DEFINE_CLONE(Extremes);
 
     const Multiport::Multiport *getExtreme(const std::size_t i) const {
-- 
2.43.0


From c206328900b9d705759d3a79e9505c88f7568290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 081/121] fix: a resistor in series with a parallel inductor
 and capacitor is printed as such

---
 src/core/physicalModel/multiport/Multiport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/physicalModel/multiport/Multiport.cpp b/src/core/physicalModel/multiport/Multiport.cpp
index 96d0282..6eb9dea 100755
--- a/src/core/physicalModel/multiport/Multiport.cpp
+++ b/src/core/physicalModel/multiport/Multiport.cpp
@@ -59,7 +59,7 @@ std::string Multiport::getTypeStr() const {
         res = "Series RC Parallel L";
         break;
     case sRpLC:
-        res = "Series R Parallel C";
+        res = "Series R Parallel LC";
         break;
     case sLCpR:
         res = "Series LC Parallel R";
-- 
2.43.0


From 2933e0d578f6129fe3695eaab9d1d8515d58c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 082/121] fix: the description of a parser can be set

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 1b1177d..32e538c 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -47,7 +47,7 @@ Parser& Parser::usage(const std::string& usage) {
 }
 
 Parser& Parser::description(const std::string& desc) {
-    description(desc);
+    Group::description(desc);
     return *this;
 }
 
-- 
2.43.0


From bbf08794d96d62b96489105c527353673234a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 083/121] fix: options given as --name=value are recognised

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 32e538c..6930fd7 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -222,7 +222,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         } else if (getArgType_(*it) == ArgType::LongOpt) {
             std::size_t posEq = it->find("=");
             if (posEq != std::string::npos) {
-                arg.first  = it->substr(2, posEq);
+                arg.first  = it->substr(2, posEq - 2);
                 arg.second.clear();
                 if (!it->substr(posEq+1).empty()) {
                     arg.second.push_back(it->substr(posEq+1));
-- 
2.43.0


From 8188c9fb57f9a07a08320158a32bda34869ef0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 084/121] fix: positional arguments that are given are not
 replaced by their default

---
 src/core/argument/GroupBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index a88d337..6893486 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -196,7 +196,7 @@ void GroupBase::parsePostprocess(Object& out) {
             throw Error::Group::Required(argsAll);
         }
     } else {
-        for (std::size_t i = 0; i < positions_.size(); i++) {
+        for (std::size_t i = lastPosParsed_; i < positions_.size(); i++) {
             std::string optName = positions_[i]->getName();
             Object aux;
             positions_[i]->notParsed(aux);
-- 
2.43.0


From 8d39240c45e9d6af1790e69c516db6d92f6c66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 085/121] fix: a parser can be used more than once

---
 src/core/argument/Group.cpp     | 7 +++++--
 src/core/argument/GroupBase.cpp | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/Group.cpp b/src/core/argument/Group.cpp
index e38195c..687fa5a 100755
--- a/src/core/argument/Group.cpp
+++ b/src/core/argument/Group.cpp
@@ -103,9 +103,12 @@ MEGroup& Group::addMutuallyExclusiveGroup() {
 }
 
 void Group::parsePreprocess(Object& out) {
-    out.setObject();
+    GroupBase::parsePreprocess(out);
+    lastPosParsed_ = 0;
     for (std::size_t i = 0; i < child_.size(); i++) {
-        if (!child_[i]->isMutuallyExclusive()) {
+        if (child_[i]->isMutuallyExclusive()) {
+            child_[i]->parsePreprocess(out);
+        } else {
             Object aux;
             aux.setObject();
             child_[i]->parsePreprocess(aux);
diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index 6893486..ff87955 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -151,6 +151,11 @@ std::vector<std::string> GroupBase::possibleOptions(const std::string& id,
 
 void GroupBase::parsePreprocess(Object& out) {
     out.setObject();
+    lastPosParsed_ = 0;
+    for (std::map<std::string, bool>::iterator
+         it = optionParsed_.begin(); it != optionParsed_.end(); ++it) {
+        it->second = false;
+    }
 }
 
 void GroupBase::parsePosition(Object& out,
-- 
2.43.0


From 6170dad640b04bf7d0dd2342ba82c7677cb85b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 086/121] fix: positional arguments that nobody takes are
 unknown arguments

---
 src/core/argument/Parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 6930fd7..d48c633 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -361,16 +361,16 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
                           unresolvedOptions[i].begin(),
                           unresolvedOptions[i].end());
     }
-    for (std::size_t i = 0; i < rem.size(); i++) {
-        if (!rem[i].empty()) {
+    for (std::size_t i = 0; i < positions.size(); i++) {
+        if (!positions[i].empty()) {
             res.second.push_back("--");
             break;
         }
     }
-    for (std::size_t i = 0; i < rem.size(); i++) {
-        input_.insert(input_.end(),
-                      rem[i].begin(),
-                      rem[i].end());
+    for (std::size_t i = 0; i < positions.size(); i++) {
+        res.second.insert(res.second.end(),
+                          positions[i].begin(),
+                          positions[i].end());
     }
     try {
         parsePostprocess(res.first);
-- 
2.43.0


From 4124ae4cc62bd0d00177d433578a9bfb44cb3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 087/121] fix: groups of arguments free their groups

---
 src/core/argument/Group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/argument/Group.cpp b/src/core/argument/Group.cpp
index 687fa5a..6cd88c4 100755
--- a/src/core/argument/Group.cpp
+++ b/src/core/argument/Group.cpp
@@ -33,7 +33,9 @@ Group::Group(GroupBase* group,
 }
 
 Group::~Group() {
-
+    for (std::size_t i = 0; i < child_.size(); i++) {
+        delete child_[i];
+    }
 }
 
 Group& Group::required() {
-- 
2.43.0


From b029bb38f00e76a9f848cb216d7af774e48aee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 088/121] fix: refusing a repeated argument leaves the first
 one usable

---
 src/core/argument/GroupBase.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index ff87955..56c54ff 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -250,18 +250,21 @@ OptionBase& GroupBase::addOption(OptionBase* arg) {
 }
 
 void GroupBase::addPositionProcess(GroupBase* child, PositionBase* pos) {
+    bool named = false;
     try {
         if (child == nullptr) {
             insertName(pos->getName());
+            named = true;
             positions_.push_back(pos);
         } else if (child->isMutuallyExclusive()) {
             insertName(pos->getName());
+            named = true;
         }
         if (parent_ != nullptr) {
             parent_->addPositionProcess(this, pos);
         }
     } catch (...) {
-        if (names_.count(pos->getName()) != 0) {
+        if (named) {
             names_.erase(pos->getName());
         }
         if ((child == nullptr) && !positions_.empty()) {
@@ -280,15 +283,19 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
     } else {
         name = opt->getLongIdentifier();
     }
+    bool named = false, shortId = false, longId = false;
     try {
         if (opt->hasShortIdentifier()) {
             insertShortOpt(opt->getShortIdentifier(), name);
+            shortId = true;
         }
         if (opt->hasLongIdentifier()) {
             insertLongOpt(opt->getLongIdentifier(), name);
+            longId = true;
         }
         if (child == nullptr) {
             insertName(opt->getName());
+            named = true;
             if (optionName_.count(name) == 0) {
                 options_.push_back(opt);
                 optionName_[name] = opt;
@@ -298,20 +305,19 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
             }
         } else if (child->isMutuallyExclusive()) {
             insertName(opt->getName());
+            named = true;
         }
         if (parent_ != nullptr) {
             parent_->addOptionProcess(this, opt);
         }
     } catch (...) {
-        if (names_.count(opt->getName()) != 0) {
+        if (named) {
             names_.erase(opt->getName());
         }
-        if (opt->hasShortIdentifier() &&
-            (shortOpts_.count(opt->getShortIdentifier()))) {
+        if (shortId) {
             shortOpts_.erase(opt->getShortIdentifier());
         }
-        if (opt->hasLongIdentifier() &&
-            (longOpts_.count(opt->getLongIdentifier()))) {
+        if (longId) {
             longOpts_.erase(opt->getLongIdentifier());
         }
         if ((child == nullptr) && !options_.empty()) {
-- 
2.43.0


From 19e785d9e93a3539df3e07fbf64772036847ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 089/121] fix: the error about a value out of its choices has a
 text

---
 src/core/argument/Value.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/argument/Value.h b/src/core/argument/Value.h
index 4b58b83..27231aa 100755
--- a/src/core/argument/Value.h
+++ b/src/core/argument/Value.h
@@ -67,6 +67,7 @@ public:
             }
         }
         aux << ")";
+        str_ = aux.str();
     }
     virtual ~NotChoices() throw() {}
 
-- 
2.43.0


From 5b569f5565849ad65f2d074560f7a69951be885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 090/121] fix: the help of an argument shows its program,
 default and choices

---
 src/core/argument/Formatter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index d9f1009..2da6399 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -228,6 +228,7 @@ std::string Formatter::replaceChoices_(
         res += aux.substr(0, aux.find(CHOICES)) + choicesStr;
         aux  = aux.substr(aux.find(CHOICES) + CHOICES.size());
     }
+    res += aux;
     return res;
 }
 
@@ -359,10 +360,8 @@ void Formatter::printArg_(const std::string& arg,
         } else {
             std::cout << std::string(tab-arg.size(),' ');
         }
-        replaceProg_(help);
-        replaceDefault_(help, def);
-        replaceChoices_(help, choices);
-        printParagraph_(help);
+        printParagraph_(replaceChoices_(replaceDefault_(replaceProg_(help),
+                                                        def), choices));
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0


From 818ce7a33e5b75be9da3cccca7523470c5b83e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 091/121] fix: a switch that can be repeated can be copied

---
 src/core/argument/MultiSwitch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/MultiSwitch.cpp b/src/core/argument/MultiSwitch.cpp
index 02653e2..1d36257 100755
--- a/src/core/argument/MultiSwitch.cpp
+++ b/src/core/argument/MultiSwitch.cpp
@@ -58,7 +58,7 @@ MultiSwitch::MultiSwitch(const std::string& name,
 
 MultiSwitch::MultiSwitch(const MultiSwitch& rhs)
 :   Argument(rhs),
-    SwitchBase(rhs) {
+    OptionBase(rhs) {
     hasDefault_ = rhs.hasDefault_;
     default_    = rhs.default_;
 }
-- 
2.43.0


From de5ac1070098561c56da53c4ff1856a4b8319744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 092/121] fix: values written together in one text are all read

---
 src/core/argument/StringParser.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 1f2ea16..f23fc88 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -146,7 +146,7 @@ struct Details {
                     trim(used);
                     trim(remain);
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
+                        used = used.substr(0, used.size() - remain.size());
                         inlist.push_front(remain);
                         trim(used);
                     }
@@ -184,14 +184,14 @@ struct Details {
                     trim(remain);
                     rem.clear();
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
-                        rem.push_front(remain);
+                        used = used.substr(0, used.size() - remain.size());
+                        inlist.push_front(remain);
                         trim(used);
                     }
                     if(!used.empty()) {
                         outlist.push_back(used);
                     }
-                    aux1 = remain;
+                    aux1.clear();
                 } else {
                     aux1 += " ";
                 }
-- 
2.43.0


From 5d6773485211e9de25cefdcbb4d1f2b5d684ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 093/121] fix: erasing a member of an object keeps the names of
 the others

---
 src/core/argument/Object.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0706994..f3a0c87 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -214,7 +214,14 @@ public:
         if (existsName(name)) {
             objMembers_ .erase(objMembers_.begin() + nameMembers_.at(name));
             objName_    .erase(objName_   .begin() + nameMembers_.at(name));
+            const std::size_t pos = nameMembers_.at(name);
             nameMembers_.erase(name);
+            for (std::map<std::string, std::size_t>::iterator
+                 it = nameMembers_.begin(); it != nameMembers_.end(); ++it) {
+                if (it->second > pos) {
+                    --it->second;
+                }
+            }
         }
         return *this;
     }
-- 
2.43.0


From 2e75957e753308cac6e2e7cd5ce29cba460eb605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 094/121] fix: an object can be assigned from a part of itself

---
 src/core/argument/Object.h | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index f3a0c87..86a8b20 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -97,14 +97,13 @@ public:
     }
 
     Object& operator =(const Object& rhs) {
-        if (this == &rhs) {
-            return *this;
-        }
-        copy_(rhs);
+        Object aux(rhs);
+        move_(std::move(aux));
         return *this;
     }
     Object& operator =(Object&& rhs) {
-        move_(std::move(rhs));
+        Object aux(std::move(rhs));
+        move_(std::move(aux));
         return *this;
     }
     template<typename... T>
@@ -191,23 +190,17 @@ public:
         return objMembers_.at(nameMembers_.at(name));
     }
     Object&   addMember(const std::string& name, const Object& val) {
-        setObject();
-        if (nameMembers_.count(name) == 0) {
-            nameMembers_[name] = objMembers_.size();
-            objMembers_.push_back(Object());
-            objName_   .push_back(name);
-        }
-        objMembers_.at(nameMembers_.at(name)) = val;
-        return *this;
+        return addMember(name, Object(val));
     }
     Object&   addMember(const std::string& name, Object&& val) {
+        Object aux(std::move(val));
         setObject();
         if (nameMembers_.count(name) == 0) {
             nameMembers_[name] = objMembers_.size();
             objMembers_.push_back(Object());
             objName_   .push_back(name);
         }
-        objMembers_.at(nameMembers_.at(name)) = std::move(val);
+        objMembers_.at(nameMembers_.at(name)) = std::move(aux);
         return *this;
     }
     Object& eraseMember(const std::string& name) {
@@ -246,13 +239,12 @@ public:
         return objMembers_.at(i);
     }
     Object&   addValue(const Object& val) {
-        setArray();
-        objMembers_.push_back(val);
-        return *this;
+        return addValue(Object(val));
     }
     Object&   addValue(Object&& val) {
+        Object aux(std::move(val));
         setArray();
-        objMembers_.push_back(std::move(val));
+        objMembers_.push_back(std::move(aux));
         return *this;
     }
     Object& eraseValue(const std::size_t& i) {
@@ -300,10 +292,7 @@ public:
         return res;
     }
     Object&     setString(const std::string& str) {
-        clear_();
-        type_ = Type::String;
-        strValue_.push_back(str);
-        return *this;
+        return setGenericString(std::list<std::string>(1, str));
     }
     
     const std::list<std::string>& getGenericString() const {
@@ -311,9 +300,10 @@ public:
     }
     Object&                       setGenericString(
             const std::list<std::string>& str) {
+        std::list<std::string> aux(str);
         clear_();
         type_ = Type::String;
-        strValue_ = str;
+        strValue_.swap(aux);
         return *this;
     }
 
-- 
2.43.0


From 25a681e800363272138bdf87a338a797bea46ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 095/121] fix: the whole range of integers can be read from an
 object

---
 src/core/argument/Object.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 86a8b20..0321272 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -267,7 +267,8 @@ public:
     bool     isReal  () const          { return is <Real>();          }
     Int     getInt   () const          { 
 		Real val = getReal();
-		if (std::numeric_limits<Int>::max() < std::abs(val)) {
+		if (!(std::floor(val) <= std::numeric_limits<Int>::max() &&
+		      std::floor(val) >= std::numeric_limits<Int>::min())) {
 			std::stringstream msg;
 			msg << "Integer value overflow: " << val;
 			throw std::logic_error(msg.str());
-- 
2.43.0


From 9e359479e4fe70063e789a653245957dff82df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 096/121] fix: numbers kept in an object keep all their digits

---
 src/core/argument/Object.h   |  1 +
 src/core/argument/Object.hpp | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0321272..043d947 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -427,6 +427,7 @@ private:
 
     template<typename T>
     void set_(const T&);
+    void set_(const Real&);
     template<typename T1, typename T2, typename... T>
     void set_(const T1&, const T2&, const T&...);
 };
diff --git a/src/core/argument/Object.hpp b/src/core/argument/Object.hpp
index adfc622..0342da1 100755
--- a/src/core/argument/Object.hpp
+++ b/src/core/argument/Object.hpp
@@ -87,11 +87,25 @@ void Object::set_(const T& param) {
     strValue_.push_back(aux.str());
 }
 
+inline void Object::set_(const Real& param) {
+    std::string str;
+    for (int digits = std::numeric_limits<Real>::digits10;
+         digits <= std::numeric_limits<Real>::max_digits10; ++digits) {
+        std::stringstream aux;
+        aux.precision(digits);
+        aux << param;
+        str = aux.str();
+        Real val;
+        if ((aux >> val) && val == param) {
+            break;
+        }
+    }
+    strValue_.push_back(str);
+}
+
 template<typename T1, typename T2, typename... T>
 void Object::set_(const T1& param1, const T2& param2, const T&... params) {
-    std::stringstream aux;
-    aux << param1;
-    strValue_.push_back(aux.str());
+    set_(param1);
     set_(param2, params...);
 }
 
-- 
2.43.0


From a7c07636effad4ace2fdb102f329d8aed5fdd3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 097/121] fix: names are not interpreted by the shell when
 removing or executing

---
 src/core/filesystem/Project.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 8549bd7..f5a3e88 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -37,6 +37,20 @@
 namespace SEMBA {
 namespace FileSystem {
 
+#ifndef _WIN32
+static std::string quote_(const std::string& name) {
+    std::string res = "'";
+    for (std::size_t i = 0; i < name.size(); i++) {
+        if (name[i] == '\'') {
+            res += "'\\''";
+        } else {
+            res += name[i];
+        }
+    }
+    return res + "'";
+}
+#endif
+
 Project::Project() {
 
 }
@@ -262,8 +276,8 @@ void Project::deleteDirIfExists_(const std::string& directory) const {
 
     // Deletes if exists.
     if (checkExistance_(directory)) {
-        std::string command = "rm -r ";
-        command += directory;
+        std::string command = "rm -r -- ";
+        command += quote_(directory);
         if (system(command.c_str())) {
             std::cout << std::endl << "WARNING @ Project: ";
             std::cout << "System command failed to execute " << command
@@ -333,7 +347,11 @@ void Project::exec(const std::string arguments) const {
     if (!canExecute()) {
         throw std::ios_base::failure("Can not execute " + *this);
     }
+#ifdef _WIN32
     std::string cmd = getFilename() + " " + arguments;
+#else
+    std::string cmd = quote_(getFilename()) + " " + arguments;
+#endif
     system(cmd.c_str());
 }
 
-- 
2.43.0


From ffdc513b7e322b156b8e4ca923f6915e5d9d41b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 098/121] fix: asking for the base name leaves the name
 unchanged

---
 src/core/filesystem/Project.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index f5a3e88..4cf9caf 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -143,7 +143,8 @@ std::string Project::getBasename() const {
     _splitpath(getFilename().c_str(), nullptr, nullptr, fname, ext);
     std::string res = std::string(fname) + ext;
 #else
-    std::string res(basename(const_cast<char*>(c_str())));
+    std::string name(*this);
+    std::string res(basename(&name[0]));
 #endif
     return res;
 }
-- 
2.43.0


From a9b8c163ad6c75e47ae9f169a936cdd6c661f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 099/121] fix: what does not exist is not a folder

---
 src/core/filesystem/Project.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 4cf9caf..7841344 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -301,7 +301,7 @@ bool Project::checkExistance_(const std::string& fn) const {
 #else
     struct stat sb;
     exists = (stat(fn.c_str(), &sb) == 0);
-    exists &= S_ISDIR(sb.st_mode);
+    exists = exists && S_ISDIR(sb.st_mode);
 #endif
     return exists;
 }
@@ -330,8 +330,7 @@ bool Project::isFolder() const {
     return false;
 #else
     struct stat sb;
-    stat(c_str(), &sb);
-    return S_ISDIR(sb.st_mode);
+    return (stat(c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
 }
 
-- 
2.43.0


From 2a93c91db98f20f2d49ef6dda4e989593ce6fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 100/121] fix: full paths are freed and those that do not exist
 are refused

---
 src/core/filesystem/Project.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 7841344..1af97be 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -21,6 +21,7 @@
 
 #include "Project.h"
 
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <stdexcept>
@@ -369,8 +370,13 @@ std::string Project::getExtension() const {
 std::string Project::getFullPath() const {
     std::string res;
 #ifndef _WIN32
-    res = (const char*) realpath(this->getFilename().c_str(), nullptr);
-    if (Project(res).isFolder()) {
+    char* path = realpath(this->getFilename().c_str(), nullptr);
+    if (path == nullptr) {
+        throw std::ios_base::failure(*this + " not exists");
+    }
+    res = path;
+    free(path);
+    if (Project(res).isFolder() && res != "/") {
         res += "/";
     }
 #else
-- 
2.43.0


From bad9bc1472b0f11d83883ae257c7f2fac011359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 101/121] fix: the extension of a file does not depend on its
 folder

---
 src/core/filesystem/Project.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 1af97be..6862fd8 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -357,14 +357,8 @@ void Project::exec(const std::string arguments) const {
 }
 
 std::string Project::getExtension() const {
-    size_t pos = rfind(".");
-    if (pos == std::string::npos) {
-        return *this;
-    }
-    if (pos == 0) {
-        return *this;
-    }
-    return this->substr(pos, std::string::npos);
+    std::string name = getBasename();
+    return name.substr(removeExtension_(name).size());
 }
 
 std::string Project::getFullPath() const {
-- 
2.43.0


From 723f931a74b6ad385f0a534fe6a1a5eb8c36d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 102/121] fix: only names within a folder are relative to it

---
 src/core/filesystem/Project.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 6862fd8..22b9bf6 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -314,10 +314,14 @@ Project Project::relativeTo(const Project& rhs) const {
     } else {
         rhsFolder = rhs.getFolder();
     }
+    if (rhsFolder.find_last_of("/\\") != rhsFolder.length() - 1) {
+        rhsFolder += "/";
+    }
     std::string name = getFilename();
-    std::string res = name.substr(name.find(rhsFolder) + rhsFolder.length(),
-                                  name.length());
-    return Project(res);
+    if (name.compare(0, rhsFolder.length(), rhsFolder) != 0) {
+        return *this;
+    }
+    return Project(name.substr(rhsFolder.length()));
 }
 
 bool Project::isFolder() const {
-- 
2.43.0


From aab6334060ccf886cb270c0104588e48d545196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 103/121] fix: files that cannot be opened are refused

---
 src/core/filesystem/Project.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 22b9bf6..92a7630 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -242,6 +242,9 @@ void Project::openFile_(const std::string& fileName,
     } catch(const std::exception&) {
         throw std::ios_base::failure(fileName + std::string(" not exists"));
     }
+    if (!file.is_open()) {
+        throw std::ios_base::failure(fileName + std::string(" not exists"));
+    }
 }
 
 std::string Project::removeExtension_(const std::string& fName) const {
@@ -346,6 +349,10 @@ void Project::openAsInput(std::ifstream& file) const {
         throw std::ios_base::failure(std::string("File can't be opened: ") +
                                      *this);
     }
+    if (!file.is_open()) {
+        throw std::ios_base::failure(std::string("File can't be opened: ") +
+                                     *this);
+    }
 }
 
 void Project::exec(const std::string arguments) const {
-- 
2.43.0


From 1df5836cab69696e24ef21b4c8b9b70918e0bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 104/121] fix: a folder cannot be executed

---
 src/core/filesystem/Project.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 92a7630..3374a34 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -126,7 +126,7 @@ bool Project::canExecute() const {
     if (stat(c_str(), &st) < 0) {
         return false;
     }
-    if ((st.st_mode & S_IEXEC) != 0) {
+    if (S_ISREG(st.st_mode) && (st.st_mode & S_IEXEC) != 0) {
         return true;
     }
     return false;
-- 
2.43.0


From 2361561ca028b27fea5e12826246aa538aee7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 105/121] fix: mesher options do not snap unless they are asked
 to

---
 src/mesher/Options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index aec0797..fde5c11 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -34,6 +34,7 @@ namespace Mesher {
 Options::Options() {
     mesher_ = Mesher::DMesher;
     mode_ = Mode::structured;
+    snap_ = false;
     forbiddenLength_ = 1.0;
     subgridPoints_ = 0;
     scalingFactor_ = 1.0;
-- 
2.43.0


From 8e3397b8e3f956874702f816def385e6d2d04143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 106/121] fix: SMA bounds are printed by their name

---
 src/mesher/Options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index fde5c11..00983f0 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -93,6 +93,9 @@ std::string Options::toStr(const PhysicalModel::Bound::Bound* val) {
     if (dynamic_cast<const PhysicalModel::Bound::Mur2*>(val) != nullptr) {
         return "MUR2";
     }
+    if (dynamic_cast<const PhysicalModel::Bound::SMA*>(val) != nullptr) {
+        return "SMA";
+    }
     return "Undefined";
 
 }
-- 
2.43.0


From 888bf9a1f8813d75dbaedf18e4e8c1ac57d41fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 107/121] fix: a simulation is resumed for the number of steps
 that is asked for

---
 src/solver/Options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/Options.cpp b/src/solver/Options.cpp
index cb0eec1..5026c05 100755
--- a/src/solver/Options.cpp
+++ b/src/solver/Options.cpp
@@ -202,7 +202,9 @@ std::string Options::toArgsStr() const {
         ss << " -cfl " << getCFL();
     }
     if (isResumeSimulation()) {
-        if (getTimeStep() != 0.0) {
+        if (endingCondition_ == EndingCondition::numberOfTimeSteps) {
+            ss << " -r " << getNumberOfTimeSteps();
+        } else if (getTimeStep() != 0.0) {
             ss << " -r " << (std::size_t)floor(getFinalTime() / getTimeStep());
         } else {
             ss << " -r " << (std::size_t)floor(getFinalTime());
-- 
2.43.0


From edf76c24ae4e0deb022d4078aaa904dd7e5da3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 108/121] fix: printing a surface without area on a grid does
 not divide by zero

---
 src/core/math/vector/Cartesian.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/math/vector/Cartesian.hpp b/src/core/math/vector/Cartesian.hpp
index 6fbc830..ec9e19b 100755
--- a/src/core/math/vector/Cartesian.hpp
+++ b/src/core/math/vector/Cartesian.hpp
@@ -452,6 +452,9 @@ Cartesian<T,D>& Cartesian<T,D>::abs() {
 template <class T, std::size_t D>
 Cartesian<T,D>& Cartesian<T,D>::normalize() {
     Real nor = norm();
+    if (std::numeric_limits<T>::is_integer && nor == 0.0) {
+        return *this;
+    }
     for (std::size_t i = 0; i < D; i++) {
         val[i] /= (T)nor;
     }
-- 
2.43.0


From f597bb76a993e1102354b60f649aff246e341290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 109/121] fix: materials at the bounds of a copied problem are
 its own

---
 src/core/Data.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index 0eb693f..f493839 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -23,6 +23,8 @@
 
 #include <utility>
 
+#include "geometry/mesh/Structured.h"
+
 namespace SEMBA {
 
 Data::Data() {
@@ -56,6 +58,24 @@ Data::Data(const Data& rhs) {
         } else {
             mesh->reassignPointers();
         }
+        if (mesh->is<Geometry::Mesh::Structured>()
+                && rhs.physicalModels != nullptr) {
+            // Materials at the bounds are those of the copy.
+            Geometry::BoundTerminations3& bounds =
+                    mesh->castTo<Geometry::Mesh::Structured>()->bounds();
+            for (std::size_t d = 0; d < 3; ++d) {
+                for (std::size_t p = 0; p < 2; ++p) {
+                    const Geometry::Bound* bound = bounds(d, p);
+                    if (bound != nullptr
+                            && rhs.physicalModels->existId(bound->getId())
+                            && rhs.physicalModels->getId(bound->getId())
+                                == bound) {
+                        bounds.setBound(d, p,
+                                physicalModels->getId(bound->getId()));
+                    }
+                }
+            }
+        }
     }
 
     if (rhs.outputRequests != nullptr) {
-- 
2.43.0


From 2d0ff8fd617b1a3318fa4a68ca3ff0aaf9f4d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 110/121] fix: a grid without positions can be printed

---
 src/core/geometry/Grid.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index e47cba7..4d0dc73 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -685,6 +685,12 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
 
 template<std::size_t D>
 void Grid<D>::printInfo() const {
+    for (std::size_t d = 0; d < D; d++) {
+        if (pos_[d].empty()) {
+            std::cout << "-- Cartesian Grid<" << D << "> -- (empty)" << std::endl;
+            return;
+        }
+    }
     CVecID numCells = getNumCells();
     BoxRD bound = getFullDomainBoundingBox();
     std::cout << "-- Cartesian Grid<" << D << "> --" << std::endl;
-- 
2.43.0


From 0be1aee1cca8128b45d30b54c20f466d17bfa2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 111/121] fix: printing settings or a matrix leaves the
 precision of the output as it was

---
 src/core/argument/Object.h       | 2 ++
 src/core/math/matrix/Dynamic.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 043d947..6f27a1a 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -328,6 +328,7 @@ public:
             break;
         case Object::Type::String:
             if (isNumber() && !asString) {
+                const std::streamsize precision = std::cout.precision();
                 if (isInt()) {
                     std::cout.precision(
                         std::numeric_limits<long long>::max_digits10);
@@ -337,6 +338,7 @@ public:
                         std::numeric_limits<long double>::max_digits10);
                     std::cout << getReal();
                 }
+                std::cout.precision(precision);
             } else {
                 const std::list<std::string>& val = getGenericString();
                 for (std::list<std::string>::const_iterator
diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index abf351c..e849b93 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -494,11 +494,13 @@ void Dynamic<T>::printInfo(std::size_t rows, std::size_t cols) const {
    }
    std::cout << "Dimensions: " << _nRows << "x" << _nCols << std::endl;
    std::cout << "Stored values: " << std::endl;
+   const std::streamsize precision = std::cout.precision();
    for (i = 0; i < rows; i++) {
       for (j = 0; j < cols; j++)
           std::cout << std::setprecision(16) << val(i,j) << " ";
       std::cout << std::endl;
    }
+   std::cout.precision(precision);
 }
 
 template <class T>
-- 
2.43.0


From 37d0e3802c75af091dacd769f1d39836b9a10334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 112/121] fix: matched connectors are read as the predefined
 ones they are

---
 src/parser/json/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index e13e893..eb3eafe 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -314,6 +314,8 @@ PhysicalModel::PhysicalModel* Parser::readPhysicalModel(const json& j) {
 			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
 		} else if (mpType == PhysicalModel::Multiport::Multiport::openCircuit) {
 			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
+		} else if (mpType == PhysicalModel::Multiport::Multiport::matched) {
+			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
         } else if (mpType == PhysicalModel::Multiport::Multiport::dispersive) {
             return new PhysicalModel::Multiport::Dispersive(id, name,
                     j.at("filename").get<std::string>());
-- 
2.43.0


From d190a14eca87238537d8648c07d8ae412f164eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 113/121] fix: replacing a member keeps identities unique and
 the indices up to date

---
 src/core/geometry/coordinate/Group.h   |  2 ++
 src/core/geometry/coordinate/Group.hpp |  8 ++++++++
 src/core/group/Identifiable.h          |  2 ++
 src/core/group/Identifiable.hpp        | 18 ++++++++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.h b/src/core/geometry/coordinate/Group.h
index 76cc112..d9f5f7b 100755
--- a/src/core/geometry/coordinate/Group.h
+++ b/src/core/geometry/coordinate/Group.h
@@ -93,6 +93,8 @@ public:
     SEMBA::Group::Group<C> addPos(const std::vector<Math::CVecI3>&,
                                   const bool = false);
 
+    void set(const std::size_t, C*);
+
     void remove(const std::size_t&);
     void remove(const std::vector<std::size_t>&);
 
diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index 7c0a007..29808e5 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -233,6 +233,14 @@ SEMBA::Group::Group<C> Group<C>::addPos(
     return this->addId(newCoords);
 }
 
+template<typename C>
+void Group<C>::set(const std::size_t pos, C* elem) {
+    SEMBA::Group::Identifiable<C,Id>::set(pos, elem);
+    indexUnstr_.clear();
+    indexStr_.clear();
+    postprocess_(0);
+}
+
 template<typename C>
 void Group<C>::remove(const std::size_t& pos) {
     if (this->get(pos)->template is<CoordR3>()) {
diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 36a8a11..52f200d 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -62,6 +62,8 @@ public:
     virtual Identifiable<T,Id>       getId(const std::vector<Id>&);
     virtual Identifiable<const T,Id> getId(const std::vector<Id>&) const;
 
+    virtual void set(const std::size_t i, T*);
+
     using Group<T>::add;
     Group<T> add(Group<T>&);
     Group<T> add(Group<T>&&);
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index 61c9353..815831c 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -156,6 +156,24 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
     return this->get(getElemsId_(ids));
 }
 
+template<typename T, class Id>
+void Identifiable<T,Id>::set(const std::size_t i, T* elem) {
+    Group<T> aux(elem);
+    const Id id = elem->getId();
+    if (id == Id(0)) {
+        throw typename Error::Id::Zero<Id>();
+    }
+    if (existId(id) && mapId_.at(id) != i) {
+        throw typename Error::Id::Duplicated<Id>(id);
+    }
+    mapId_.erase(this->get(i)->getId());
+    Group<T>::set(i, elem);
+    mapId_[id] = i;
+    if (id > lastId_) {
+        lastId_ = id;
+    }
+}
+
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
     std::size_t lastSize = this->size();
-- 
2.43.0


From dc1268a382c7e82b3fae85dbb2c9eb16d7e6f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 114/121] fix: assigning repeated or null identities is refused
 and leaves the collection as it was

---
 src/core/group/Identifiable.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index 815831c..7fda4b5 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -93,6 +93,7 @@ Identifiable<T,Id>& Identifiable<T,Id>::operator=(Group<T>& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    const Identifiable<T,Id> aux(rhs);
     Group<T>::operator=(rhs);
     postprocess_(0);
     return *this;
@@ -103,6 +104,7 @@ Identifiable<T,Id>& Identifiable<T,Id>::operator=(Group<T>&& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    const Identifiable<T,Id> aux(rhs);
     Group<T>::operator=(std::move(rhs));
     postprocess_(0);
     return *this;
-- 
2.43.0


From 48ac95e611d17d4e297758d9ccbd8614178c7cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 115/121] fix: an element that passes twice through a
 coordinate is found by it once

---
 src/core/geometry/element/Group.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 95165a1..31a35aa 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -66,6 +66,7 @@ Group<const E> Group<E>::getCoordId(const CoordId id) const {
 		for (size_t j = 0; j < elem->numberOfCoordinates(); j++) {
 			if (elem->getV(j)->getId() == id) {
 				res.add(elem);
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 99cfcc92d9629bea6e9a8499a54ee00d8d6262e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 116/121] fix: names of solids with the word vertex are not
 taken for vertices

---
 src/parser/stl/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index 6ae889b..ea136c5 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -49,7 +49,11 @@ Data Parser::read(std::istream& stl) const {
     stl.clear();
     stl.seekg(0); // Rewinds.
     while (stl >> label) {
-        if (label == "vertex") {
+        if (label == "solid" || label == "endsolid") {
+            // Names may have any word.
+            std::string name;
+            std::getline(stl, name);
+        } else if (label == "vertex") {
             Math::CVecR3 vertex;
             if (!(stl >> vertex(Math::Constants::x)
                       >> vertex(Math::Constants::y)
-- 
2.43.0


From 1099a20aaa6c727aeb6311f5a2918c183361f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 117/121] fix: the width of the console is asked of the output

---
 src/core/util/ProgressBar.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index bd84d84..31ced5d 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -238,8 +238,9 @@ std::size_t ProgressBar::getSize_() const {
         return size;
     }
     struct winsize w;
-    ioctl(0, TIOCGWINSZ, &w);
-    size = w.ws_col;
+    if (ioctl(fileno(stdout), TIOCGWINSZ, &w) == 0) {
+        size = w.ws_col;
+    }
 #endif
     return size;
 }
-- 
2.43.0


From eda1545de5d33f66bdbe5680508eca12d1301813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 118/121] fix: a progress line leaves the format of the output
 as it was

---
 src/core/util/ProgressBar.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index 31ced5d..192957d 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -96,6 +96,12 @@ void ProgressBar::end() {
 }
 
 void ProgressBar::printLine_() const {
+    // Leaves the format of the output as it was.
+    struct Format {
+        std::ios saved;
+        Format() : saved(nullptr) { saved.copyfmt(std::cout); }
+        ~Format() { std::cout.copyfmt(saved); }
+    } format;
     std::size_t pos = 0;
     std::size_t sizeCon    = getSize_();
     std::size_t sizePrev   = prev_;
-- 
2.43.0


From 9eb3a8f1c9c254b07da7b6714b1390f8ed974ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 119/121] fix: progress lines fit in narrow consoles

---
 src/core/util/ProgressBar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index 192957d..017e0bf 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -197,7 +197,7 @@ void ProgressBar::printLine_() const {
     std::cout << " ";
     pos++;
     if (sizeBar < 3) {
-        printSpaces_(3);
+        printSpaces_(sizeBar);
     } else {
         std::cout << "[";
         std::size_t sizeBarInt = sizeBar - 2;
-- 
2.43.0


From e9c434de7fe8d262170594a5d93a8e85017c4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 120/121] fix: lines just out of a box do not cut it

---
 src/core/geometry/Box.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 2268751..6641228 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -400,14 +400,13 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     // Prepares subgrid with the size of the box preserving grid positions.
     std::vector<Math::Real> pos[D];
     for (std::size_t d = 0; d < D; d++) {
-        pos[d] = grid.getPosInRange(d, min_(d), max_(d));
-        if (pos[d].empty()) {
-            pos[d].push_back(min_(d));
-        }
-        if (min_(d) != pos[d].front()) {
-            std::vector<Math::Real> aux(1,min_(d));
-            aux.insert(aux.end(), pos[d].begin(), pos[d].end());
-            pos[d] = aux;
+        // Positions that are in range by tolerance but out of the box can't
+        // be used to cut it.
+        pos[d].push_back(min_(d));
+        for (Math::Real p : grid.getPosInRange(d, min_(d), max_(d))) {
+            if (p > min_(d) && p < max_(d)) {
+                pos[d].push_back(p);
+            }
         }
         if (max_(d) != pos[d].back()) {
             pos[d].push_back(max_(d));
-- 
2.43.0


From 0c95666341294e44b4de1fede711cc06400567d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:47 +0000
Subject: [PATCH 121/121] fix: a backslash at the end of a folder name is not a
 separator

---
 src/core/filesystem/Project.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 3374a34..664a13b 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -162,13 +162,16 @@ std::string Project::getFolder() const {
     std::string folder(dirname(cstr));
     delete [] cstr;
 #endif
-    if (folder.find_last_of("/\\") != folder.length() - 1) {
 #ifdef _WIN32
+    if (folder.find_last_of("/\\") != folder.length() - 1) {
         folder += "\\";
+    }
 #else
+    // The backslash can be part of a name.
+    if (folder.rfind('/') != folder.length() - 1) {
         folder += "/";
-#endif
     }
+#endif
     return folder;
 }
 
@@ -317,9 +320,15 @@ Project Project::relativeTo(const Project& rhs) const {
     } else {
         rhsFolder = rhs.getFolder();
     }
+#ifdef _WIN32
     if (rhsFolder.find_last_of("/\\") != rhsFolder.length() - 1) {
         rhsFolder += "/";
     }
+#else
+    if (rhsFolder.rfind('/') != rhsFolder.length() - 1) {
+        rhsFolder += "/";
+    }
+#endif
     std::string name = getFilename();
     if (name.compare(0, rhsFolder.length(), rhsFolder) != 0) {
         return *this;
-- 
2.43.0

