From 94ee933f942f00547d1edb5069d9572adef3322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 01/64] fix: lin2sub skipped the last subscript of
 column-ordered arrays

---
 src/subscript.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index af72b86..c96534b 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -546,7 +546,7 @@ std::vector<I> lin2sub(I l, const std::vector<I>& stride){
   else if (1 < ndim) {
     sub.resize(ndim);
     if (stride[ndim-1] > stride[0])
-    for (I i=ndim-1; i--; ){
+    for (I i=static_cast<I>(ndim); i-- > 0; ){
       sub[i] = l/stride[i];
       l -= sub[i]*stride[i];
     }
-- 
2.43.0


From 1906e62879ca8c8e015481607e9c994d0713741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 02/64] fix: iterating over an array without elements never
 ended

---
 src/subscript.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index c96534b..ff5c5df 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -182,6 +182,8 @@ public:
   }
   SubIt<T> end() const {
     size_t n = this->ndim();
+    // an array without elements has nothing to iterate
+    for (const auto & x: _shape) if (x == T(0)) return this->begin();
     holder val(n, T(0));
     for (size_t i=0; i<n; ++i) if (_fixed[i]) val[i] = _sub[i];
     if (_first < n) val[_first] = _shape[_first];
@@ -290,6 +292,8 @@ public:
     return SubIt2<T>(_shape, _inpt, std::move(sub), _fixed);
   }
   SubIt2<T> end() const {
+    // an array without elements has nothing to iterate
+    for (const auto & x: _shape) if (x == T(0)) return this->begin();
     holder val({T(0), T(0)});
     if (_fixed[0]) val[0] = _sub[0];
     if (_fixed[1]) val[1] = _sub[1];
@@ -355,7 +359,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == T(1) ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -409,6 +413,8 @@ public:
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
   }
   BroadcastIt<T> end() const {
+    // an outer array without elements has nothing to iterate
+    for (const auto & x: _shapeO) if (x == T(0)) return this->begin();
     size_t n = this->ndim();
     holder s0(n,0), s1(n,0), sO(n,0);
     sO[0] = _shapeO[0];
@@ -474,7 +480,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == T(1) ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt2(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -519,6 +525,8 @@ public:
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
   }
   BroadcastIt2<T> end() const {
+    // an outer array without elements has nothing to iterate
+    for (const auto & x: _shapeO) if (x == T(0)) return this->begin();
     holder s0({0,0}), s1({0,0}), sO({0,0});
     sO[0] = _shapeO[0];
     if (_shape0[0] > 1) s0[0] = sO[0]; // not used in ==
-- 
2.43.0


From bda20b2c77076596d50a199f3a35ed521c561042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 03/64] fix: the in-place transpose of a matrix that is not 3x3
 used a row length of 3

---
 src/utilities.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 9a8dcb5..5cfc0e5 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -186,9 +186,9 @@ template<typename R, int N> void complex_conj_matrix_transpose(std::complex<R> *
 template<typename R, int N> void matrix_transpose(R *B){
   R t;
   for (int i=0; i<N; i++) for(int j=i+1; j<N; j++) {
-    t = B[i+j*3];
-    B[i+j*3] = B[j+i*3];
-    B[j+i*3] = t;
+    t = B[i+j*N];
+    B[i+j*N] = B[j+i*N];
+    B[j+i*N] = t;
   }
 }
 
-- 
2.43.0


From cef3d603924f66cb612aa627dcab07365ac79842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 04/64] fix: setting the number of visits of a SortingStatus
 inverted the old count instead of clearing it

---
 src/sorting_status.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorting_status.hpp b/src/sorting_status.hpp
index dbdc764..718e16f 100644
--- a/src/sorting_status.hpp
+++ b/src/sorting_status.hpp
@@ -86,7 +86,7 @@ public:
   template<typename T>
   status_t visits(T v) {
     if (v <= static_cast<status_t>(-1) >> v_shift){
-      this->status ^= v_mask; // keep everything but the number of visits
+      this->status &= ~v_mask; // keep everything but the number of visits
       this->status += v << v_shift; // add the offset visits value
     }
     else
-- 
2.43.0


From e6cd45b369a6836f3638d545ded60eede6700bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 05/64] fix: s2u silently truncated values which are too large
 for the unsigned type

---
 src/utilities.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 5cfc0e5..c21a99d 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -743,8 +743,8 @@ S u2s(const U u){
 template<typename U,typename S>
 U s2u(const S s){
   if (s < 0
-    //|| static_cast<U>((std::numeric_limits<S>::max)()) > (std::numeric_limits<U>::max)() // the largest element of type S is too big for U
-    //|| s > static_cast<S>((std::numeric_limits<U>::max)()) // s, specifically is too big to be expressed in type U
+    // with s non-negative both sides of the comparison are converted to the larger of the two unsigned types
+    || static_cast<std::make_unsigned_t<S>>(s) > (std::numeric_limits<U>::max)() // s, specifically is too big to be expressed in type U
   ){
     std::string msg = "signed_to_unsiged:: Value " + std::to_string(s)
                     + " can not be stored in requested unsiged type"
-- 
2.43.0


From 279d6c9bd1207b47f4620c34dec45006ba068015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 06/64] fix: apply_inverse_permutation overwrote objects with
 indices

---
 src/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 419597d..de7b9ee 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -809,7 +809,7 @@ apply_inverse_permutation(ObjItr objects, ObjItr end, PermItr indices){
     objects[indices[i]] = std::move(objects[i]);
     indices[indices[i]] = indices[i];
     // and put the popped object and index back in here
-    objects[i] = std::move(pop_idx);
+    objects[i] = std::move(pop_obj);
     indices[i] = pop_idx;
   }
 }
-- 
2.43.0


From f55108c460ff7bd4b189212ab69170d179fd7586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 07/64] fix: binomial_coefficient returned wrong values when
 the factorials overflowed

---
 src/utilities.tpp | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index c21a99d..e2561cf 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -689,39 +689,24 @@ indistinguishable objects can be chosen.
 template<class T, class R>
 std::enable_if_t<std::is_unsigned<T>::value&&std::is_unsigned<R>::value, unsigned long long>
 binomial_coefficient(const T n, const R k){
-  unsigned long long ans{1}, num{1}, den{1}, comdiv;
+  unsigned long long ans{1};
   if (k>n){
     std::string msg = "The binomial coefficient requires more choices than selections.";
     msg += "\n binomial_coefficient(" + std::to_string(n) + ":" + std::to_string(k) + ") is invalid";
     throw std::domain_error(msg);
   }
   // the Binomial coefficient is symmetric due to the denominator k!(n-k)!
-  R m = (n-k < k) ? static_cast<R>(n-k) : k;
-  bool overflow = false;
-  for (R i=0; i<m; ++i){
-    unsigned long long lastnum{num}, lastden{den};
-    num *= static_cast<unsigned long long>(n-i);
-    den *= static_cast<unsigned long long>(i)+1;
-    if (lastnum > num || lastden > den){
-      comdiv = gcd(lastnum, lastden);
-      if (comdiv > 1){
-        num = lastnum/comdiv;
-        den = lastden/comdiv;
-        --i;
-      } else {
-        overflow = true;
-      }
-    }
-    if (overflow) break;
-  }
-
-  if (overflow){
-    long double dans{1};
-    for (T i=0; i<m; ++i)
-      dans *= static_cast<long double>(n-i)/(static_cast<long double>(i)+1);
-    ans = std::llround(dans);
-  } else {
-    ans = num/den;
+  auto m = static_cast<unsigned long long>((n-k < k) ? n-k : k);
+  for (unsigned long long i=0; i<m; ++i){
+    // the product C(n,i) (n-i) is divisible by (i+1); divide before multiplying
+    unsigned long long den = i+1;
+    unsigned long long num = static_cast<unsigned long long>(n)-i;
+    unsigned long long comdiv = gcd(ans, den);
+    ans /= comdiv;
+    num /= den/comdiv;
+    if (ans > (std::numeric_limits<unsigned long long>::max)()/num)
+      throw std::overflow_error("The binomial coefficient is too large.");
+    ans *= num;
   }
   return ans;
 }
-- 
2.43.0


From 0fdb494ef8107dc11f388c71302e658c3c1db22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 08/64] fix: the stable matching compared proposals by the
 preferences of the wrong column

---
 src/smp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smp.hpp b/src/smp.hpp
index f9c28c2..9b9b031 100644
--- a/src/smp.hpp
+++ b/src/smp.hpp
@@ -132,7 +132,7 @@ int smp(const T dim, const P *restrict prefs, T *restrict rsol, T *restrict csol
         // if the preferred column has a proposed match
         if (cmatched[thisc]){
           // and if the column prefers this row over the proposed row
-          if (cpref[i*dim + i] < cpref[i*dim + csol[thisc]]){
+          if (cpref[thisc*dim + i] < cpref[thisc*dim + csol[thisc]]){
             // unmatch the other row
             rmatched[csol[thisc]] = false;
             rsol[csol[thisc]] = T(0);
-- 
2.43.0


From c9a3bd1e133a716cc1c2e1acc379f5e19515f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 09/64] fix: results for an Array2 view were allocated with the
 strides of its parent

---
 src/array2.tpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 5b2bf32..0717b35 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -497,7 +497,7 @@ Array2<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array2<int>\
 Array2<T>:: X () const {\
-  Array2<int> out(_shape, _stride);\
+  Array2<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: out.subItr())\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -703,7 +703,7 @@ Array2<T>::count(const brille::cmp expr, const T val, const T Ttol, const int to
 template<class T>
 Array2<bool>
 Array2<T>::is(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -735,7 +735,7 @@ Array2<T>::is(const brille::cmp expr, const Array2<R>& that, const T Ttol, const
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
     brille::Comparer<T,R> op(expr, Ttol, Rtol, tol);
@@ -984,7 +984,7 @@ Array2<T>::unique(const T Ttol, const int tol) const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array2<T> out(osize, _stride);
+  Array2<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -1009,7 +1009,7 @@ T Array2<T>::norm(ind_t i) const {
 template<class T>
 Array2<T>
 Array2<T>::operator-() const{
-  Array2<T> neg(_shape, _stride);
+  Array2<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: this->subItr()) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
-- 
2.43.0


From eba348fe6cc17540d20066507af948741c0cb506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 10/64] fix: linear indexing into an Array2 view with gaps
 accessed elements outside of the view

---
 src/array2.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/array2.hpp b/src/array2.hpp
index 7e2abcf..163a4bf 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -309,7 +309,10 @@ public:
   const T& operator[](const shape_t& sub) const {return _data[this->s2l_d(sub)];}
 protected: // so inherited classes can calculate subscript indexes into their data
   [[nodiscard]] ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    if (this->is_contiguous()) return l + _shift;
+    // consecutive elements of a view with gaps are not consecutive in memory
+    if (this->is_row_ordered()) return this->ij2l_d(l / _shape[1], l % _shape[1]);
+    return this->ij2l_d(l % _shape[0], l / _shape[0]);
   }
   [[nodiscard]] ind_t ij2l_d(const ind_t x, const ind_t y) const {
     return sub2lin(x, y, _stride) + _shift;
-- 
2.43.0


From a2ca64cfa9a121a0e0f2920071588e50c44b58e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 11/64] fix: is_permutation counted the rows of the two arrays
 with different tolerances

---
 src/array2.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 0717b35..4bcee0b 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1045,9 +1045,9 @@ bool Array2<T>::is_permutation(const Array2<R>& other, const T Ttol, const R Rto
     const auto x{this->view(i)};
     // if *this contains the same thing more than once, other must as well:
     // NaN values would break this functionality since NaN == NaN is never true
-    if (this->count(cmp::eq, x) != other.count(cmp::eq, x, Ttol, Rtol, tol)) {
-      info_update(x.to_string(0), " is in \n", this->to_string(), this->count(cmp::eq, x), " times but in\n",
-                  other.to_string(), other.count(cmp::eq, x, tol), " times!");
+    if (this->count(cmp::eq, x, Ttol, Ttol, tol) != other.count(cmp::eq, x, Rtol, Ttol, tol)) {
+      info_update(x.to_string(0), " is in \n", this->to_string(), this->count(cmp::eq, x, Ttol, Ttol, tol), " times but in\n",
+                  other.to_string(), other.count(cmp::eq, x, Rtol, Ttol, tol), " times!");
       return false;
     }
 //    // the reverse should be true too, but is extraneous
-- 
2.43.0


From 94808289ce2802de2671d3e8208dde7f145dfd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 12/64] fix: permutation_vector repeated an index when a row
 occurs more than once

---
 src/array2.tpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 4bcee0b..acd02ca 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1063,9 +1063,8 @@ template<class R>
 std::vector<ind_t> Array2<T>::permutation_vector(const Array2<R>& other, const T Ttol, const R Rtol, int tol) const {
   auto not_present = [](const auto & a, const auto & b){
     if (a.size() == 0) throw std::runtime_error("Can not find a not in b since a is empty");
-    if (b.size() == 0) return a[0];
-    const auto ptr = std::find_first_of(a.begin(), a.end(), b.begin(), b.end(),
-                                        [](const auto & x, const auto & y){return x != y;});
+    const auto ptr = std::find_if(a.begin(), a.end(),
+                                  [&b](const auto & x){return std::find(b.begin(), b.end(), x) == b.end();});
     if (ptr == a.end())
       throw std::runtime_error("b contains all of a!");
     return *ptr;
-- 
2.43.0


From 27c43f60592da4127a41abec4bb1501ab0565b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 13/64] fix: all(le_ge) of an Array2 ignored the tolerances

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index acd02ca..4fd6c1a 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -664,7 +664,7 @@ bool Array2<T>::match(const ind_t i, const ind_t j, brille::ops op, T val, const
 template<class T>
 bool Array2<T>::all(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
   if (brille::cmp::le_ge == expr)
-    return this->all(brille::cmp::le, val) || this->all(brille::cmp::ge, val);
+    return this->all(brille::cmp::le, val, Ttol, tol) || this->all(brille::cmp::ge, val, Ttol, tol);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) if(!op(_data[this->l2l_d(k)], val)) return false;
-- 
2.43.0


From 2db2a326e660144755622458ae6926f9a29454a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 14/64] fix: each_is of an Array2 with more than one column
 accessed rows which do not exist

---
 src/array2.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 4fd6c1a..46dbe23 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -929,8 +929,8 @@ Array2<T>::each_is(const brille::cmp expr, const std::vector<R>& vals, const T T
   brille::Comparer<T,R> op(expr, Ttol, Rtol, tol);
   out.reserve(no);
   // loop over whole array in linear-index order
-  for (ind_t i=0; i<no; ++i)
-    out.push_back(op(this->val(i), vals[i]));
+  ind_t i{0};
+  for (const auto & sub: this->subItr()) out.push_back(op((*this)[sub], vals[i++]));
   return out;
 }
 
-- 
2.43.0


From 64950e9accaefede50b9273f45e6765151d45f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 15/64] fix: assigning an Array2 of another element type leaked
 the old elements

---
 src/array2.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/array2.hpp b/src/array2.hpp
index 163a4bf..672a4a1 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -284,13 +284,7 @@ public:
   }
   template<class R>
   Array2<T>& operator=(const Array2<R>& other){
-    _mutable = true;
-    _shape = other.shape();
-    _shift = 0;
-    this->set_stride();
-    this->construct();
-    for (const auto & x: this->subItr()) _data[s2l_d(x)] = static_cast<T>(other[x]);
-    return *this;
+    return *this = Array2<T>(other);
   }
 
   // modifiers
-- 
2.43.0


From 658a27f0df77915d729ade2ff148e2f4d05a294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 16/64] fix: the row ordered copy of a column ordered Array2
 was column ordered

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 46dbe23..3e9041d 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1239,7 +1239,7 @@ Array2<T> Array2<T>::contiguous_copy() const {
 template<class T>
 Array2<T> Array2<T>::contiguous_row_ordered_copy() const {
   if (this->is_row_ordered() && this->is_contiguous()) return Array2<T>(*this);
-  Array2<T> out(_shape, this->calculate_stride(_shape));
+  Array2<T> out(_shape);
   for (auto x : this->subItr()) out[x] = (*this)[x];
   return out;
 }
-- 
2.43.0


From 75e24fa8f63ae45cf3a23e4fd9579b8e0c8c28ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:19 +0000
Subject: [PATCH 17/64] fix: scalar minus array evaluated to array minus scalar

---
 src/array_functions.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 92d659f..9087536 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -98,9 +98,17 @@ operator X (const R b, const A<T>& a){\
   return out;\
 }
 SCALAR_ARRAY_OP(+,+=)
-SCALAR_ARRAY_OP(-,-=)
 SCALAR_ARRAY_OP(*,*=)
 #undef SCALAR_ARRAY_OP
+// subtraction does not commute
+template<class T, class R, template<class> class A, class S = std::common_type_t<T,R>>
+std::enable_if_t<isArray<T,A>, A<S>>
+operator-(const R b, const A<T>& a){
+  A<S> out = A<S>(a).decouple();
+  out *= static_cast<S>(-1);
+  out += b;
+  return out;
+}
 
 // any derived bArray<T> with a copy constructor [+-*/] std::array<R,N>
 // broadcasts the std::array but only if N matches the size of the last dimension of the bArray
-- 
2.43.0


From a324271fae4ccffc30060266bb3c68d0b154f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:19 +0000
Subject: [PATCH 18/64] fix: an Array2 made from an Array without dimensions
 was left uninitialised

---
 src/array2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/array2.hpp b/src/array2.hpp
index 672a4a1..1170001 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -220,7 +220,8 @@ public:
 
   // Construct an Array2 from an Array, unravelling higher dimensions
   Array2(const Array<T>& nd)
-  : _num(0u), _shift(0u), _shape({0,1}), _stride({1,1})
+  : _data(nullptr), _num(0u), _shift(0u), _own(false), _ref(std::make_shared<std::atomic<char>>()),
+    _mutable(true), _shape({0,1}), _stride({1,1})
   {
     // we always want to construct contiguous row-ordered arrays
     if (nd.ndim()>0){
-- 
2.43.0


From aa557296a763b9715f4cae554cdebc67a2c0d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 19/64] fix: results for an Array view were allocated with the
 strides of its parent

---
 src/array.hpp | 10 ++++++----
 src/array.tpp | 10 +++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index f67eae3..3752a95 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -414,17 +414,19 @@ private:
   Array<T> _decouple() const {
     ind_t nnum = this->size_from_shape(_shape);
     T* new_data = new T[nnum]();
-    if (nnum == _num) {
+    shape_t new_st{_stride};
+    if (this->is_contiguous() && nnum == _num) {
       std::copy(_data, _data+_num, new_data);
     } else {
       //subscript conversion necessary due to offset
-      //                                   vvv(no offset)vvvv          vvv(offset)vvv
-      for (auto x: SubIt(_shape)) new_data[sub2lin(x,_stride)] = _data[this->s2l_d(x)];
+      new_st = this->calculate_stride(_shape);
+      //                                  vvv(no offset)vvvv          vvv(offset)vvv
+      for (auto x: SubIt(_shape)) new_data[sub2lin(x,new_st)] = _data[this->s2l_d(x)];
     }
     bool new_own = true; // always take ownership of C++ allocated memory
     auto new_ref = std::make_shared<char>(); // always use the default with C++ created arrays
     bool new_mut = true; // new allocated memory should be mutable
-    return Array<T>(new_data, nnum, new_own, new_ref, _shape, _stride, new_mut);
+    return Array<T>(new_data, nnum, new_own, new_ref, _shape, new_st, new_mut);
   }
 public:
   // sub-array access
diff --git a/src/array.tpp b/src/array.tpp
index 0cdc9b8..c5c75d6 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -503,7 +503,7 @@ Array<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array<int>\
 Array<T>:: X () const {\
-  Array<int> out(_shape, _stride);\
+  Array<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: SubIt(out.shape()))\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -734,7 +734,7 @@ Array<T>::count(const brille::cmp expr, const T val) const {
 template<class T>
 Array<bool>
 Array<T>::is(const brille::cmp expr, const T val) const {
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -765,7 +765,7 @@ Array<T>::is(const brille::cmp expr, const Array<R>& that) const {
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   size_t ndim = _shape.size();
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
@@ -847,7 +847,7 @@ Array<T>::unique() const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array<T> out(osize, _stride);
+  Array<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -877,7 +877,7 @@ T Array<T>::norm(ind_t i) const {
 template<class T>
 Array<T>
 Array<T>::operator-() const{
-  Array<T> neg(_shape, _stride);
+  Array<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: SubIt(_shape)) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
-- 
2.43.0


From de95d526ccca8aa945dfb2cdf61805b036e27738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 20/64] fix: linear indexing into an Array view with gaps
 accessed elements outside of the view

---
 src/array.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index 3752a95..bf6eed1 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -339,8 +339,18 @@ protected: // so inherited classes can calculate subscript indexes into their da
   //   assert(s.size() == _offset.size());
   //   return offset_sub2lin(_offset, s, _stride);
   // }
-  ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+  ind_t l2l_d(ind_t l) const {
+    // consecutive elements of a view with gaps are not consecutive in memory
+    const size_t nd{_shape.size()};
+    const bool row{_stride.front() >= _stride.back()};
+    ind_t out{_shift};
+    for (size_t i=0; i+1<nd; ++i){
+      const size_t d{row ? nd-1-i : i};
+      if (_shape[d] == 0) return out;
+      out += (l % _shape[d]) * _stride[d];
+      l /= _shape[d];
+    }
+    return out + l * _stride[row ? 0 : nd-1];
   }
   ind_t s2l_d(const shape_t& s) const {
     return sub2lin(s, _stride) + _shift;
-- 
2.43.0


From 19cdacc9e9e09800c53957039bb07f0c8c98c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 21/64] fix: the sum and product of all elements of an Array
 iterated over its shape

---
 src/array.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index c5c75d6..dcd4962 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -625,14 +625,14 @@ Array<T>::max(const ind_t dim) const{
 template<class T>
 T Array<T>::sum() const{
   T out{0};
-  for (auto x : _shape) out += _data[this->s2l_d(x)];
+  for (auto x : SubIt<ind_t>(_shape)) out += _data[this->s2l_d(x)];
   return out;
 }
 
 template<class T>
 T Array<T>::prod() const{
   T out{1};
-  for (auto x : _shape) out *= _data[this->s2l_d(x)];
+  for (auto x : SubIt<ind_t>(_shape)) out *= _data[this->s2l_d(x)];
   return out;
 }
 
-- 
2.43.0


From 77e64251bf5ba7c24ace1f25fdecf2c341da4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 22/64] fix: Array match compared with the first row instead of
 the requested one

---
 src/array.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index dcd4962..102b7aa 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -651,7 +651,7 @@ bool Array<T>::match(const ind_t i, const ind_t j, const std::array<R,Nel>& rot,
     int o{0};
     do{
       //check against the current tmp vector whether this order rotation has moved j to i
-      if (eq(n, ai.data(), tmp.data())) return true;
+      if (eq(n, ai.ptr(), _stride[1], tmp.data(), 1u)) return true;
       // otherwise apply the rotation (again)
       brille::utils::mul_mat_vec_inplace(n, rot.data(), tmp.data());
     } while (o++ < std::abs(order));
@@ -660,7 +660,7 @@ bool Array<T>::match(const ind_t i, const ind_t j, const std::array<R,Nel>& rot,
     // rotate exactly order times
     for (int o=0; o<order; ++o)
       brille::utils::mul_mat_vec_inplace(n, rot.data(), tmp.data());
-    return eq(n, ai.data(), tmp.data());
+    return eq(n, ai.ptr(), _stride[1], tmp.data(), 1u);
   }
 }
 
-- 
2.43.0


From 819585541c3d52363e3f6885dffd197b3029a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 23/64] fix: extracting from an Array with a list of index
 tuples wrote to the wrong elements

---
 src/array.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 102b7aa..064f37d 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -130,8 +130,8 @@ Array<T>::extract(const std::vector<std::array<I,Nel>>& i) const
       xi[0] = static_cast<ind_t>(i[a][b]);
       for (auto sub: SubIt(_shape, xi))
       {
-        for (ind_t j=0; j<_shape.size(); ++j) osh[j+1]=sub[j];
-        out[sub] = _data[this->s2l_d(xi)];
+        for (ind_t j=1; j<_shape.size(); ++j) osh[j+1]=sub[j];
+        out[osh] = _data[this->s2l_d(sub)];
       }
     }
   }
-- 
2.43.0


From 95db971f83f0aee293dd5afc420f37f5bc89acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 24/64] fix: reductions of an Array view divided the strides of
 its parent

---
 src/array.tpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 064f37d..6a01451 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -518,14 +518,9 @@ Array<T>
 Array<T>::sum(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{0};
@@ -544,14 +539,9 @@ Array<T>
 Array<T>::prod(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{1};
@@ -570,14 +560,9 @@ Array<T>
 Array<T>::min(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{(std::numeric_limits<T>::max)()};
@@ -597,14 +582,9 @@ Array<T>
 Array<T>::max(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   // the stride along any dimension can not be zero. protect against it:
   for (ind_t i=0; i<ndim; ++i) if (ostride[i] < 1u) ostride[i] = 1u;
 
-- 
2.43.0


From 2feefc7c0c3b47953294fe6d71af6f57f8faf7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 25/64] fix: setting a permutation for a known pair without one
 did not store it

---
 src/permutation_table.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/permutation_table.hpp b/src/permutation_table.hpp
index cdc2bd3..74c34bc 100644
--- a/src/permutation_table.hpp
+++ b/src/permutation_table.hpp
@@ -150,14 +150,14 @@ public:
 		size_t idx{0};
 		size_t key = this->ij2key(i,j);
 		auto itr = ijmap.find(key);
-		// if the key is already present, emplace will not overwrite it anyway
-		if (itr != ijmap.end()) return itr->second;
-		// the ijmap does not contain key (i,j), so check for permutation duplication
+		// if the key already has a valid mapping it is not overwritten
+		if (itr != ijmap.end() && itr->second >= offset) return itr->second - offset;
+		// the ijmap does not contain a mapping for key (i,j), so check for permutation duplication
 		std::tie(contains, idx) = this->find_permutation(v);
 		// add this permutation if it's not present
 		if (!contains) permutations.push_back(v);
 		// and store the mapping
-		ijmap.emplace(key, idx+offset); // +offset for -offset in get
+		ijmap[key] = idx+offset; // +offset for -offset in get
 		return idx;
 	}
 	//! Replace an existing mapping in the double-index map
-- 
2.43.0


From d7ef705828eb1968f38b280a27d929dee71c0883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 26/64] fix: adding a vertex to a set without room for any
 wrote out of bounds

---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 05808c9..9388091 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -229,7 +229,7 @@ private:
   }
 
   rel_t insert(const A<T>& vertex){
-    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_);
+    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_ + 1u);
     appended_.set(appended_count_, vertex);
     //return pristine_count() + appended_count_++;
     return std::make_pair(MapVertexType::Appended, appended_count_++);
-- 
2.43.0


From eb3239cce4db66fb0f4ae57699912616bbb3a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 27/64] fix: Motion::to_ascii wrote negative translations with
 a sign in the denominator, which can not be read

---
 src/motion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/motion.hpp b/src/motion.hpp
index 8c47988..aae0196 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -148,6 +148,8 @@ operations.
                     den = T(num)/v;
                     if (brille::approx_float::scalar(v, T(num)/T(den))) break;
                 }
+                // the parser expects any sign to precede the numerator
+                if (den < 0) {num = -num; den = -den;}
                 lout += (num < 256) ? (std::to_string(num) + "/" + std::to_string(den)) : std::to_string(v);
             }
             std::vector<std::string> es{"x","y","z"};
-- 
2.43.0


From 87aa9b0ef9eeb2748d5b1410f00e24eaed5c4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 28/64] fix: Motion::from_ascii wrote out of bounds for strings
 with more than three components

---
 src/motion.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index aae0196..2bf0429 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -194,9 +194,11 @@ operations.
                 break;
             }
             ++ret; // we've read another character
+            // only (trailing) spaces or separators may follow the third component
+            if (n > 2u && ' ' != c && ';' != c) throw std::runtime_error("String representation of a Motion has more than three components.");
             switch (c){
                 case ' ': // end of motion component in the special case, otherwise nothing
-                    if (special) {
+                    if (special && n < 3u) {
                         this->w[n++] = static_cast<T>(i)/T(12);
                         debug_update("set w[",n-1,"] to ", this->w[n-1]);
                     }
@@ -204,7 +206,7 @@ operations.
                 case ';': // end of one motion -- must fall through for third component end
                 case ',': // end of motion component
                     i=1;
-                    this->w[n++] = f;
+                    if (n < 3u) this->w[n++] = f;
                     f=0;
                     break;
                 case 'x':
-- 
2.43.0


From 0774a94568a74496bb74bbfb72542b84ef402c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:23 +0000
Subject: [PATCH 29/64] fix: Motion::from_ascii lost the factor of a coordinate
 when a space follows its sign

---
 src/motion.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 2bf0429..068daa4 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -230,7 +230,8 @@ operations.
                         hasdigit |= digits.find(char(stream.peek()))!=std::string::npos;
                         hasslash |= '/'==stream.peek();
                         haspoint |= '.'==stream.peek();
-                        tmp << char(stream.get()); // without char() the output of stream.get() is interpreted as an integer (under MSVC, at least)
+                        char next = char(stream.get());
+                        if (' ' != next) tmp << next; // without char() the output of stream.get() is interpreted as an integer (under MSVC, at least)
                     }
                     // Make sure the end-of-motion character is next even if we're at the end of the string
                     if (!stream.good()) stream.putback(special ? ' ' : ';');
-- 
2.43.0


From 17deb18197ed5112cacafeb27384ea16cb9de136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 30/64] fix: PointSymmetry::add could not read rotations from
 text

---
 src/pointsymmetry.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index fb4c0f3..ebad5e0 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -19,6 +19,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "linear_algebra.hpp"
 #include "pointgroup.hpp"
 #include <algorithm>
+#include <cctype>
 #include <cstring>
 #include <iostream>
 #include <sstream>
@@ -43,12 +44,18 @@ size_t PointSymmetry::add(const std::string& s){
   // and f one of 0, ±1/12, ±1/6, ±1/4, ±1/3, ±1/2
   // but we should support any rational or floating point value for f
   int n{0}, i{1};
-  char c{' '};
+  char c{' '}, last{' '};
   std::istringstream stream(s);
   size_t ret{0};
   while (stream.good()){
     c = char(stream.get());
+    if (!stream.good()) break; // the end of the string
+    if (' ' != c) last = c;
+    if (n > 2 && ',' != c && ';' != c && ' ' != c)
+      throw std::runtime_error("String representation of a rotation has more than three components.");
     switch (c){
+      case ' ': // nothing
+        break;
       case ';': // end of one motion
         ret = this->add(newR);
         newR = {0,0,0,0,0,0,0,0,0};
@@ -57,6 +64,7 @@ size_t PointSymmetry::add(const std::string& s){
         break;
       case ',': // end of motion component
         i=1;
+        ++n;
         break;
       case 'x':
         newR[n*3] = i;
@@ -73,12 +81,15 @@ size_t PointSymmetry::add(const std::string& s){
       default: // not ;,xyz
         std::stringstream tmp;
         tmp << c;
-        bool haspoint{false}, hasslash{false};
-        while (std::strchr(";,xyz-+",stream.peek())==nullptr){
+        bool haspoint{false}, hasslash{false}, hasdigit{std::isdigit(c) != 0};
+        while (stream.peek() != EOF && std::strchr(";,xyz-+",stream.peek())==nullptr){
           hasslash |= '/'==stream.peek();
           haspoint |= '.'==stream.peek();
-          tmp << stream.get();
+          hasdigit |= std::isdigit(stream.peek()) != 0;
+          char next = char(stream.get());
+          if (' ' != next) tmp << next;
         }
+        if (!hasdigit) tmp << '1'; // deal with, e.g., -x or +x
         if (haspoint && hasslash) throw std::logic_error("Number has both point and slash?!");
         if (!(haspoint^hasslash)) tmp >> i; // TT (error) or FF (integer)
         // either floating point or rational numbers represent part of the
@@ -86,7 +97,7 @@ size_t PointSymmetry::add(const std::string& s){
         // operations, but we should just skip for now
     }
   }
-  if (';'!=c) ret = this->add(newR);
+  if (';'!=last) ret = this->add(newR);
   return ret;
 }
 bool PointSymmetry::set(const size_t i, const int *r){
-- 
2.43.0


From 99693eb25a9e920cf89b7fa4609d8e740b7f6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:02 +0000
Subject: [PATCH 31/64] fix: PointSymmetry::generate returned a set which is
 not a group for some generators

---
 src/pointsymmetry.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index ebad5e0..3dcbb3a 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -310,18 +310,25 @@ PointSymmetry PointSymmetry::generate() const {
   PointSymmetry gen;
   gen.add(E); // any generated operations always need the identity operation
   size_t gensize;
-  for (size_t i=0; i<this->size(); ++i){
-    x = E;
-    // for each of R, R¹,…, Rⁿ⁻¹
-    for (int count=this->order(i); count--;){ // post-decrimate to run the loop count times
-      brille::utils::multiply_matrix_matrix(y.data(), this->data(i), x.data());
-      x = y;
-      // multiply Rⁱ by the operators in gen
-      gensize = gen.size(); // only multiply against pre-existing operations
-      for (size_t j=0; j<gensize; ++j){
-        brille::utils::multiply_matrix_matrix(y.data(), x.data(), gen.data(j));
-        // and add them to gen if they are not already present
-        if (!gen.has(y)) gen.add(y);
+  // a single pass is not enough if an operation does not normalise the group of
+  // the operations before it, so repeat until nothing new is found.
+  // A crystallographic point group has no more than 48 operations.
+  size_t found{0};
+  while (found < gen.size() && found <= 48u){
+    found = gen.size();
+    for (size_t i=0; i<this->size(); ++i){
+      x = E;
+      // for each of R, R¹,…, Rⁿ⁻¹
+      for (int count=this->order(i); count--;){ // post-decrimate to run the loop count times
+        brille::utils::multiply_matrix_matrix(y.data(), this->data(i), x.data());
+        x = y;
+        // multiply Rⁱ by the operators in gen
+        gensize = gen.size(); // only multiply against pre-existing operations
+        for (size_t j=0; j<gensize; ++j){
+          brille::utils::multiply_matrix_matrix(y.data(), x.data(), gen.data(j));
+          // and add them to gen if they are not already present
+          if (!gen.has(y)) gen.add(y);
+        }
       }
     }
   }
-- 
2.43.0


From 17d74353fb7e408faa2fdbfafaee4f5e7155ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:02 +0000
Subject: [PATCH 32/64] fix: Symmetry::generate returned a set which is not a
 group for some generators

---
 src/symmetry.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 8eb1aaf..7d54a1b 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -128,17 +128,24 @@ Symmetry Symmetry::generate() const {
   Symmetry gen;
   gen.add(e);
   size_t gensize;
-  for (size_t i=0; i<this->size(); ++i){
-    auto x = e;
-    // for each of {W,w}, {W²,Ww+w}, {W³,W²w+Ww+w}, …
-    for (int count=this->order(i); count--;) /* loop runs count times */ {
-      x = getm(i)*x;
-      // multiply {Wⁱ,Wⁱ⁻¹w+…} by the motions in gen
-      gensize = gen.size(); // only multiply against pre-existing motions
-      for (size_t j=0; j<gensize; ++j){
-        auto y = x * gen.getm(j);
-        // add missing motions to gen
-        if (!gen.has(y)) gen.add(y);
+  // a single pass is not enough if an operation does not normalise the group of
+  // the operations before it, so repeat until nothing new is found.
+  // A conventional cell has no more than 192 operations.
+  size_t found{0};
+  while (found < gen.size() && found <= 192u){
+    found = gen.size();
+    for (size_t i=0; i<this->size(); ++i){
+      auto x = e;
+      // for each of {W,w}, {W²,Ww+w}, {W³,W²w+Ww+w}, …
+      for (int count=this->order(i); count--;) /* loop runs count times */ {
+        x = getm(i)*x;
+        // multiply {Wⁱ,Wⁱ⁻¹w+…} by the motions in gen
+        gensize = gen.size(); // only multiply against pre-existing motions
+        for (size_t j=0; j<gensize; ++j){
+          auto y = x * gen.getm(j);
+          // add missing motions to gen
+          if (!gen.has(y)) gen.add(y);
+        }
       }
     }
   }
-- 
2.43.0


From c3cc57347ccea07c3feeebfb324bf6d24ea4c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 33/64] fix: the B-face centred settings of the space group
 table were listed as primitive

---
 src/spg_database.cpp | 80 ++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index a158e4f..81b31b4 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -89,9 +89,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  5, "C2^3"  , "A 2y"            , "C 2 = A 1 2 1"                  , "A 1 2 1"            , "C2"        , "b2"   , Bravais::A,  3,  10},
   {  5, "C2^3"  , "I 2y"            , "C 2 = I 1 2 1"                  , "I 1 2 1"            , "C2"        , "b3"   , Bravais::I,  3,  11},
   {  5, "C2^3"  , "A 2"             , "C 2 = A 1 1 2"                  , "A 1 1 2"            , "C2"        , "c1"   , Bravais::A,  3,  12},
-  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::P,  3,  13},
+  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::B,  3,  13},
   {  5, "C2^3"  , "I 2"             , "C 2 = I 1 1 2"                  , "I 1 1 2"            , "C2"        , "c3"   , Bravais::I,  3,  14},
-  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::P,  3,  15},
+  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::B,  3,  15},
   {  5, "C2^3"  , "C 2x"            , "C 2 = C 2 1 1"                  , "C 2 1 1"            , "C2"        , "a2"   , Bravais::C,  3,  16},
   {  5, "C2^3"  , "I 2x"            , "C 2 = I 2 1 1"                  , "I 2 1 1"            , "C2"        , "a3"   , Bravais::I,  3,  17},
   {  6, "Cs^1"  , "P -2y"           , "P m = P 1 m 1"                  , "P 1 m 1"            , "Pm"        , "b"    , Bravais::P,  4,  18},
@@ -110,9 +110,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  8, "Cs^3"  , "A -2y"           , "C m = A 1 m 1"                  , "A 1 m 1"            , "Cm"        , "b2"   , Bravais::A,  4,  31},
   {  8, "Cs^3"  , "I -2y"           , "C m = I 1 m 1"                  , "I 1 m 1"            , "Cm"        , "b3"   , Bravais::I,  4,  32},
   {  8, "Cs^3"  , "A -2"            , "C m = A 1 1 m"                  , "A 1 1 m"            , "Cm"        , "c1"   , Bravais::A,  4,  33},
-  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::P,  4,  34},
+  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::B,  4,  34},
   {  8, "Cs^3"  , "I -2"            , "C m = I 1 1 m"                  , "I 1 1 m"            , "Cm"        , "c3"   , Bravais::I,  4,  35},
-  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::P,  4,  36},
+  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::B,  4,  36},
   {  8, "Cs^3"  , "C -2x"           , "C m = C m 1 1"                  , "C m 1 1"            , "Cm"        , "a2"   , Bravais::C,  4,  37},
   {  8, "Cs^3"  , "I -2x"           , "C m = I m 1 1"                  , "I m 1 1"            , "Cm"        , "a3"   , Bravais::I,  4,  38},
   {  9, "Cs^4"  , "C -2yc"          , "C c = C 1 c 1"                  , "C 1 c 1"            , "Cc"        , "b1"   , Bravais::C,  4,  39},
@@ -122,16 +122,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  9, "Cs^4"  , "C -2ybc"         , "C c = C 1 n 1"                  , "C 1 n 1"            , "Cc"        , "-b2"  , Bravais::C,  4,  43},
   {  9, "Cs^4"  , "I -2yc"          , "C c = I 1 c 1"                  , "I 1 c 1"            , "Cc"        , "-b3"  , Bravais::I,  4,  44},
   {  9, "Cs^4"  , "A -2a"           , "C c = A 1 1 a"                  , "A 1 1 a"            , "Cc"        , "c1"   , Bravais::A,  4,  45},
-  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::P,  4,  46},
+  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::B,  4,  46},
   {  9, "Cs^4"  , "I -2b"           , "C c = I 1 1 b"                  , "I 1 1 b"            , "Cc"        , "c3"   , Bravais::I,  4,  47},
-  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::P,  4,  48},
+  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::B,  4,  48},
   {  9, "Cs^4"  , "A -2ac"          , "C c = A 1 1 n"                  , "A 1 1 n"            , "Cc"        , "-c2"  , Bravais::A,  4,  49},
   {  9, "Cs^4"  , "I -2a"           , "C c = I 1 1 a"                  , "I 1 1 a"            , "Cc"        , "-c3"  , Bravais::I,  4,  50},
-  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::P,  4,  51},
+  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::B,  4,  51},
   {  9, "Cs^4"  , "C -2xbc"         , "C c = C n 1 1"                  , "C n 1 1"            , "Cc"        , "a2"   , Bravais::C,  4,  52},
   {  9, "Cs^4"  , "I -2xc"          , "C c = I c 1 1"                  , "I c 1 1"            , "Cc"        , "a3"   , Bravais::I,  4,  53},
   {  9, "Cs^4"  , "C -2xc"          , "C c = C c 1 1"                  , "C c 1 1"            , "Cc"        , "-a1"  , Bravais::C,  4,  54},
-  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::P,  4,  55},
+  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::B,  4,  55},
   {  9, "Cs^4"  , "I -2xb"          , "C c = I b 1 1"                  , "I b 1 1"            , "Cc"        , "-a3"  , Bravais::I,  4,  56},
   { 10, "C2h^1" , "-P 2y"           , "P 2/m = P 1 2/m 1"              , "P 1 2/m 1"          , "P2/m"      , "b"    , Bravais::P,  5,  57},
   { 10, "C2h^1" , "-P 2"            , "P 2/m = P 1 1 2/m"              , "P 1 1 2/m"          , "P2/m"      , "c"    , Bravais::P,  5,  58},
@@ -143,9 +143,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 12, "C2h^3" , "-A 2y"           , "C 2/m = A 1 2/m 1"              , "A 1 2/m 1"          , "C2/m"      , "b2"   , Bravais::A,  5,  64},
   { 12, "C2h^3" , "-I 2y"           , "C 2/m = I 1 2/m 1"              , "I 1 2/m 1"          , "C2/m"      , "b3"   , Bravais::I,  5,  65},
   { 12, "C2h^3" , "-A 2"            , "C 2/m = A 1 1 2/m"              , "A 1 1 2/m"          , "C2/m"      , "c1"   , Bravais::A,  5,  66},
-  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::P,  5,  67},
+  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::B,  5,  67},
   { 12, "C2h^3" , "-I 2"            , "C 2/m = I 1 1 2/m"              , "I 1 1 2/m"          , "C2/m"      , "c3"   , Bravais::I,  5,  68},
-  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::P,  5,  69},
+  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::B,  5,  69},
   { 12, "C2h^3" , "-C 2x"           , "C 2/m = C 2/m 1 1"              , "C 2/m 1 1"          , "C2/m"      , "a2"   , Bravais::C,  5,  70},
   { 12, "C2h^3" , "-I 2x"           , "C 2/m = I 2/m 1 1"              , "I 2/m 1 1"          , "C2/m"      , "a3"   , Bravais::I,  5,  71},
   { 13, "C2h^4" , "-P 2yc"          , "P 2/c = P 1 2/c 1"              , "P 1 2/c 1"          , "P2/c"      , "b1"   , Bravais::P,  5,  72},
@@ -173,16 +173,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 15, "C2h^6" , "-C 2ybc"         , "C 2/c = C 1 2/n 1"              , "C 1 2/n 1"          , "C2/c"      , "-b2"  , Bravais::C,  5,  94},
   { 15, "C2h^6" , "-I 2yc"          , "C 2/c = I 1 2/c 1"              , "I 1 2/c 1"          , "C2/c"      , "-b3"  , Bravais::I,  5,  95},
   { 15, "C2h^6" , "-A 2a"           , "C 2/c = A 1 1 2/a"              , "A 1 1 2/a"          , "C2/c"      , "c1"   , Bravais::A,  5,  96},
-  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::P,  5,  97},
+  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::B,  5,  97},
   { 15, "C2h^6" , "-I 2b"           , "C 2/c = I 1 1 2/b"              , "I 1 1 2/b"          , "C2/c"      , "c3"   , Bravais::I,  5,  98},
-  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::P,  5,  99},
+  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::B,  5,  99},
   { 15, "C2h^6" , "-A 2ac"          , "C 2/c = A 1 1 2/n"              , "A 1 1 2/n"          , "C2/c"      , "-c2"  , Bravais::A,  5, 100},
   { 15, "C2h^6" , "-I 2a"           , "C 2/c = I 1 1 2/a"              , "I 1 1 2/a"          , "C2/c"      , "-c3"  , Bravais::I,  5, 101},
-  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::P,  5, 102},
+  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::B,  5, 102},
   { 15, "C2h^6" , "-C 2xbc"         , "C 2/c = C 2/n 1 1"              , "C 2/n 1 1"          , "C2/c"      , "a2"   , Bravais::C,  5, 103},
   { 15, "C2h^6" , "-I 2xc"          , "C 2/c = I 2/c 1 1"              , "I 2/c 1 1"          , "C2/c"      , "a3"   , Bravais::I,  5, 104},
   { 15, "C2h^6" , "-C 2xc"          , "C 2/c = C 2/c 1 1"              , "C 2/c 1 1"          , "C2/c"      , "-a1"  , Bravais::C,  5, 105},
-  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::P,  5, 106},
+  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::B,  5, 106},
   { 15, "C2h^6" , "-I 2xb"          , "C 2/c = I 2/b 1 1"              , "I 2/b 1 1"          , "C2/c"      , "-a3"  , Bravais::I,  5, 107},
   { 16, "D2^1"  , "P 2 2"           , "P 2 2 2"                        , "P 2 2 2"            , "P222"      , ""     , Bravais::P,  6, 108},
   { 17, "D2^2"  , "P 2c 2"          , "P 2 2 2_1"                      , "P 2 2 2_1"          , "P222_1"    , ""     , Bravais::P,  6, 109},
@@ -194,10 +194,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 19, "D2^4"  , "P 2ac 2ab"       , "P 2_1 2_1 2_1"                  , "P 2_1 2_1 2_1"      , "P2_12_12_1", ""     , Bravais::P,  6, 115},
   { 20, "D2^5"  , "C 2c 2"          , "C 2 2 2_1"                      , "C 2 2 2_1"          , "C222_1"    , ""     , Bravais::C,  6, 116},
   { 20, "D2^5"  , "A 2a 2a"         , "A 2_1 2 2"                      , "A 2_1 2 2"          , "A2_122"    , "cab"  , Bravais::A,  6, 117},
-  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::P,  6, 118},
+  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::B,  6, 118},
   { 21, "D2^6"  , "C 2 2"           , "C 2 2 2"                        , "C 2 2 2"            , "C222"      , ""     , Bravais::C,  6, 119},
   { 21, "D2^6"  , "A 2 2"           , "A 2 2 2"                        , "A 2 2 2"            , "A222"      , "cab"  , Bravais::A,  6, 120},
-  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::P,  6, 121},
+  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::B,  6, 121},
   { 22, "D2^7"  , "F 2 2"           , "F 2 2 2"                        , "F 2 2 2"            , "F222"      , ""     , Bravais::F,  6, 122},
   { 23, "D2^8"  , "I 2 2"           , "I 2 2 2"                        , "I 2 2 2"            , "I222"      , ""     , Bravais::I,  6, 123},
   { 24, "D2^9"  , "I 2b 2c"         , "I 2_1 2_1 2_1"                  , "I 2_1 2_1 2_1"      , "I2_12_12_1", ""     , Bravais::I,  6, 124},
@@ -251,37 +251,37 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 34, "C2v^10", "P -2n -2n"       , "P n 2 n"                        , "P n 2 n"            , "Pn2n"      , "bca"  , Bravais::P,  7, 172},
   { 35, "C2v^11", "C 2 -2"          , "C m m 2"                        , "C m m 2"            , "Cmm2"      , ""     , Bravais::C,  7, 173},
   { 35, "C2v^11", "A -2 2"          , "A 2 m m"                        , "A 2 m m"            , "A2mm"      , "cab"  , Bravais::A,  7, 174},
-  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::P,  7, 175},
+  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::B,  7, 175},
   { 36, "C2v^12", "C 2c -2"         , "C m c 2_1"                      , "C m c 2_1"          , "Cmc2_1"    , ""     , Bravais::C,  7, 176},
   { 36, "C2v^12", "C 2c -2c"        , "C c m 2_1"                      , "C c m 2_1"          , "Ccm2_1"    , "ba-c" , Bravais::C,  7, 177},
   { 36, "C2v^12", "A -2a 2a"        , "A 2_1 m a"                      , "A 2_1 m a"          , "A2_1ma"    , "cab"  , Bravais::A,  7, 178},
   { 36, "C2v^12", "A -2 2a"         , "A 2_1 a m"                      , "A 2_1 a m"          , "A2_1am"    , "-cba" , Bravais::A,  7, 179},
-  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::P,  7, 180},
-  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::P,  7, 181},
+  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::B,  7, 180},
+  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::B,  7, 181},
   { 37, "C2v^13", "C 2 -2c"         , "C c c 2"                        , "C c c 2"            , "Ccc2"      , ""     , Bravais::C,  7, 182},
   { 37, "C2v^13", "A -2a 2"         , "A 2 a a"                        , "A 2 a a"            , "A2aa"      , "cab"  , Bravais::A,  7, 183},
-  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::P,  7, 184},
+  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::B,  7, 184},
   { 38, "C2v^14", "A 2 -2"          , "A m m 2"                        , "A m m 2"            , "Amm2"      , ""     , Bravais::A,  7, 185},
-  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::P,  7, 186},
-  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::P,  7, 187},
+  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::B,  7, 186},
+  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::B,  7, 187},
   { 38, "C2v^14", "C -2 2"          , "C 2 m m"                        , "C 2 m m"            , "C2mm"      , "-cba" , Bravais::C,  7, 188},
   { 38, "C2v^14", "C -2 -2"         , "C m 2 m"                        , "C m 2 m"            , "Cm2m"      , "bca"  , Bravais::C,  7, 189},
   { 38, "C2v^14", "A -2 -2"         , "A m 2 m"                        , "A m 2 m"            , "Am2m"      , "a-cb" , Bravais::A,  7, 190},
   { 39, "C2v^15", "A 2 -2c"         , "A e m 2"                        , "A e m 2"            , "Aem2"      , ""     , Bravais::A,  7, 191},
-  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::P,  7, 192},
-  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::P,  7, 193},
+  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::B,  7, 192},
+  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::B,  7, 193},
   { 39, "C2v^15", "C -2b 2"         , "C 2 m e"                        , "C 2 m e"            , "C2me"      , "-cba" , Bravais::C,  7, 194},
   { 39, "C2v^15", "C -2b -2b"       , "C m 2 e"                        , "C m 2 e"            , "Cm2e"      , "bca"  , Bravais::C,  7, 195},
   { 39, "C2v^15", "A -2c -2c"       , "A e 2 m"                        , "A e 2 m"            , "Ae2m"      , "a-cb" , Bravais::A,  7, 196},
   { 40, "C2v^16", "A 2 -2a"         , "A m a 2"                        , "A m a 2"            , "Ama2"      , ""     , Bravais::A,  7, 197},
-  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::P,  7, 198},
-  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::P,  7, 199},
+  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::B,  7, 198},
+  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::B,  7, 199},
   { 40, "C2v^16", "C -2c 2"         , "C 2 c m"                        , "C 2 c m"            , "C2cm"      , "-cba" , Bravais::C,  7, 200},
   { 40, "C2v^16", "C -2c -2c"       , "C c 2 m"                        , "C c 2 m"            , "Cc2m"      , "bca"  , Bravais::C,  7, 201},
   { 40, "C2v^16", "A -2a -2a"       , "A m 2 a"                        , "A m 2 a"            , "Am2a"      , "a-cb" , Bravais::A,  7, 202},
   { 41, "C2v^17", "A 2 -2ac"        , "A e a 2"                        , "A e a 2"            , "Aea2"      , ""     , Bravais::A,  7, 203},
-  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::P,  7, 204},
-  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::P,  7, 205},
+  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::B,  7, 204},
+  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::B,  7, 205},
   { 41, "C2v^17", "C -2bc 2"        , "C 2 c e"                        , "C 2 c e"            , "C2ce"      , "-cba" , Bravais::C,  7, 206},
   { 41, "C2v^17", "C -2bc -2bc"     , "C c 2 e"                        , "C c 2 e"            , "Cc2e"      , "bca"  , Bravais::C,  7, 207},
   { 41, "C2v^17", "A -2ac -2ac"     , "A e 2 a"                        , "A e 2 a"            , "Ae2a"      , "a-cb" , Bravais::A,  7, 208},
@@ -378,26 +378,26 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 63, "D2h^17", "-C 2c 2c"        , "C c m m"                        , "C 2/c 2/m 2_1/m"    , "Ccmm"      , "ba-c" , Bravais::C,  8, 299},
   { 63, "D2h^17", "-A 2a 2a"        , "A m m a"                        , "A 2_1/m 2/m 2/a"    , "Amma"      , "cab"  , Bravais::A,  8, 300},
   { 63, "D2h^17", "-A 2 2a"         , "A m a m"                        , "A 2_1/m 2/a 2/m"    , "Amam"      , "-cba" , Bravais::A,  8, 301},
-  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::P,  8, 302},
-  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::P,  8, 303},
+  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::B,  8, 302},
+  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::B,  8, 303},
   { 64, "D2h^18", "-C 2bc 2"        , "C m c e"                        , "C 2/m 2/c 2_1/e"    , "Cmce"      , ""     , Bravais::C,  8, 304},
   { 64, "D2h^18", "-C 2bc 2bc"      , "C c m e"                        , "C 2/c 2/m 2_1/e"    , "Ccme"      , "ba-c" , Bravais::C,  8, 305},
   { 64, "D2h^18", "-A 2ac 2ac"      , "A e m a"                        , "A 2_1/e 2/m 2/a"    , "Aema"      , "cab"  , Bravais::A,  8, 306},
   { 64, "D2h^18", "-A 2 2ac"        , "A e a m"                        , "A 2_1/e 2/a 2/m"    , "Aeam"      , "-cba" , Bravais::A,  8, 307},
-  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::P,  8, 308},
-  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::P,  8, 309},
+  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::B,  8, 308},
+  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::B,  8, 309},
   { 65, "D2h^19", "-C 2 2"          , "C m m m"                        , "C 2/m 2/m 2/m"      , "Cmmm"      , ""     , Bravais::C,  8, 310},
   { 65, "D2h^19", "-A 2 2"          , "A m m m"                        , "A 2/m 2/m 2/m"      , "Ammm"      , "cab"  , Bravais::A,  8, 311},
-  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::P,  8, 312},
+  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::B,  8, 312},
   { 66, "D2h^20", "-C 2 2c"         , "C c c m"                        , "C 2/c 2/c 2/m"      , "Cccm"      , ""     , Bravais::C,  8, 313},
   { 66, "D2h^20", "-A 2a 2"         , "A m a a"                        , "A 2/m 2/a 2/a"      , "Amaa"      , "cab"  , Bravais::A,  8, 314},
-  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::P,  8, 315},
+  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::B,  8, 315},
   { 67, "D2h^21", "-C 2b 2"         , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , ""     , Bravais::C,  8, 316},
   { 67, "D2h^21", "-C 2b 2b"        , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , "ba-c" , Bravais::C,  8, 317},
   { 67, "D2h^21", "-A 2c 2c"        , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "cab"  , Bravais::A,  8, 318},
   { 67, "D2h^21", "-A 2 2c"         , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "-cba" , Bravais::A,  8, 319},
-  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::P,  8, 320},
-  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::P,  8, 321},
+  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::B,  8, 320},
+  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::B,  8, 321},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1"    , Bravais::C,  8, 322},
   { 68, "D2h^22", "-C 2b 2bc"       , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "2"    , Bravais::C,  8, 323},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1ba-c", Bravais::C,  8, 324},
@@ -406,10 +406,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 68, "D2h^22", "-A 2a 2c"        , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2cab" , Bravais::A,  8, 327},
   { 68, "D2h^22", "A 2 2 -1ac"      , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "1-cba", Bravais::A,  8, 328},
   { 68, "D2h^22", "-A 2ac 2c"       , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2-cba", Bravais::A,  8, 329},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::P,  8, 330},
-  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::P,  8, 331},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::P,  8, 332},
-  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::P,  8, 333},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::B,  8, 330},
+  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::B,  8, 331},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::B,  8, 332},
+  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::B,  8, 333},
   { 69, "D2h^23", "-F 2 2"          , "F m m m"                        , "F 2/m 2/m 2/m"      , "Fmmm"      , ""     , Bravais::F,  8, 334},
   { 70, "D2h^24", "F 2 2 -1d"       , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "1"    , Bravais::F,  8, 335},
   { 70, "D2h^24", "-F 2uv 2vw"      , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "2"    , Bravais::F,  8, 336},
-- 
2.43.0


From 66f8023a3d069a0e6597d07a655f17e210c75aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 34/64] fix: the international number 230 was not found

---
 src/spg_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 81b31b4..2a9f726 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -612,7 +612,7 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
 bool brille::hall_number_ok(const int h) {return h>0 && h<531;}
 
 int brille::international_number_to_hall_number(const int n, const std::string& c){
-	if (n>=0 && n<230) for (int i=1; i<531; i++){
+	if (n>=0 && n<=230) for (int i=1; i<531; i++){
 		Spacegroup spg(ALL_SPACEGROUPS[i]);
     if (n==spg.number && (0==c.size() || 0==c.compare(spg.choice))) return i;
 	}
-- 
2.43.0


From 8781e9c5fb1866d39e91671432b2065e518a60a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 35/64] fix: collecting point symmetry operations read
 operations which were not yet added

---
 src/pointgroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 5a90f89..61173e1 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -229,7 +229,7 @@ PointSymmetry brille::ptg_get_pointsymmetry(const int *rotations, const int num_
   // so that our outer for loop can start from the second one
   for (int i = 1; i < num_rotations; i++) {
     bool isunique = true;
-    for (int j = 0; j < num_rotations; j++)
+    for (size_t j = 0; j < pointsym.size(); j++)
       if ( brille::utils::equal_matrix(rotations+i*9, pointsym.data(j)) ){
        isunique = false;
        break;
-- 
2.43.0


From 9abf202c5c32e9bff55b1dee3252f147f69f6ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 36/64] fix: finding axes orthogonal to a rotation overwrote
 the powers of the rotation

---
 src/pointgroup.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 61173e1..ad96dd1 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -573,9 +573,10 @@ static int get_orthogonal_axis(int ortho_axes[], const int *proper_rot, const in
 {
   int i, num_ortho_axis=0;
   int vec[3];
-  int sum_rot[9]={0,0,0, 0,0,0, 0,0,0}, rot[9]={1,0,0, 0,1,0, 0,0,1};
+  int sum_rot[9]={0,0,0, 0,0,0, 0,0,0}, rot[9]={1,0,0, 0,1,0, 0,0,1}, tmp[9];
   for (i = 0; i < rot_order; i++) {
-    brille::utils::multiply_matrix_matrix(rot, proper_rot, rot);
+    brille::utils::multiply_matrix_matrix(tmp, proper_rot, rot);
+    brille::utils::copy_matrix(rot, tmp);
     brille::utils::add_matrix(sum_rot, rot, sum_rot);
   }
   for (i = 0; i < NUM_ROT_AXES; i++) {
-- 
2.43.0


From 1a52b1addd758e1f2f7ae8e8d457e8d87d45e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 37/64] fix: the unique rotations of an empty list read past
 its end

---
 src/pointgroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index ad96dd1..2badc9f 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -606,6 +606,7 @@ static void set_transformation_matrix(int *tmat, const int *axes){
 std::vector<std::array<int,9>> brille::get_unique_rotations(const std::vector<std::array<int,9>>& rotations, const int is_time_reversal)
 {
 	const size_t N = rotations.size();
+	if (N == 0) return {};
 	std::vector<std::array<int,9>> rot_tmp;
 	rot_tmp.reserve(2*N);
 	std::vector<int> unique_rot;
-- 
2.43.0


From 0421159e206203d2de4bca36166e9c84bfe466b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:51 +0000
Subject: [PATCH 38/64] fix: snapping basis vectors to symmetry rotated
 lattices with the first vector in the xy plane

---
 src/lattice_dual.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index acceaf6..907a920 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -25,20 +25,18 @@ standard_orientation_matrix(const std::array<T, 9>& bv){
    *   Find the rotation matrix which takes us to the standard upper triangular
    *   form with flattened matrix {a, bx, cx, 0, by, cy, 0, 0, cz}
    * */
-	// Avoid (0, -1) -> pi in std::atan2:
-	auto arctan = [](T x, T y){return std::abs(x) ? std::atan2(x, y) : 0.;};
   // tan(mu) = -ay / az
-  S mu = arctan(-bv[3], bv[6]);
+  S mu = std::atan2(-bv[3], bv[6]);
   auto [c_mu, s_mu] = math::cos_and_sin(mu);
 
-  // tan(nu) = -az / (ax * cos(mu))
-  S nu = arctan(-bv[6], bv[0] * c_mu);
+  // tan(nu) = (ay * sin(mu) - az * cos(mu)) / ax
+  S nu = std::atan2(bv[3] * s_mu - bv[6] * c_mu, bv[0]);
   auto [c_nu, s_nu] = math::cos_and_sin(nu);
 
   // tan(xi) = (bx sin(nu) - by cos(nu) sin(mu) + bz cos(nu) cos(mu)) / (by cos(mu) + bz sin(mu))
   S num = bv[1] * s_nu - bv[4] * c_nu * s_mu + bv[7] * c_nu * c_mu;
   S den = bv[4] * c_mu + bv[7] * s_mu;
-  S xi = arctan(num, den);
+  S xi = std::atan2(num, den);
   auto [c_xi, s_xi] = math::cos_and_sin(xi);
 
   // Rotation matrix, verified 'by hand' multiple times.
-- 
2.43.0


From e4e77e6875332953b9a66dad516125038385430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:51 +0000
Subject: [PATCH 39/64] fix: six times the primitive transform of a primitive
 lattice was not six times the identity

---
 src/primitive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitive.hpp b/src/primitive.hpp
index d87794a..d33e037 100644
--- a/src/primitive.hpp
+++ b/src/primitive.hpp
@@ -118,7 +118,7 @@ public:
     case Bravais::B: return { 3, 0,-3,  0, 6, 0,  3, 0, 3};
     case Bravais::C: return { 3, 3, 0, -3, 3, 0,  0, 0, 6};
     case Bravais::R: return { 4,-2,-2,  2, 2,-4,  2, 2, 2};
-    default: return {6,6,6, 6,6,6, 6,6,6};
+    default: return { 6, 0, 0,  0, 6, 0,  0, 0, 6};
     }
   }
   /*! \brief Return the inverse of the transformation matrix P
-- 
2.43.0


From 43fa46d34d4528cecc3f2da4d497888ebf7065c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:51 +0000
Subject: [PATCH 40/64] fix: the starred lattice vectors were too large by a
 factor of two pi

---
 src/array_functions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 9087536..c2f818e 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -414,6 +414,7 @@ star(const L<T>& v){
   vsh.back() = 0;
   for (auto x: v.subItr(vsh)) // iterate over all but the last dimension
     brille::utils::multiply_matrix_vector(vstar.ptr(x), covariant_metric.data(), v.ptr(x));
+  vstar /= brille::math::two_pi; // the real and reciprocal basis vectors are dual up to 2π
   return vstar;
 }
 
-- 
2.43.0


From ef7d0c6630b4017f72f0e9d1d6491a79e7cc5de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 41/64] fix: the centroid of a polyhedron was wrong for lattice
 vectors

---
 src/polyhedron_faces.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index c5aacef..6ce28fd 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -218,6 +218,8 @@ namespace brille::polyhedron{
         if (!_faces.empty()) throw std::runtime_error("No vertices provided for centroid");
         return x;
       }
+      // the sum of squared vector components is only valid in an orthonormal frame
+      if constexpr (isLatVec<T,A>) return from_xyz_like(x, this->centroid(x.xyz()));
       auto cen = 0 * x.view(0);
       for (const auto & face: _faces) {
         const auto a{x.view(face[0])};
-- 
2.43.0


From 67702042da77a54e96a30c4ab21f5d29c9b24172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 42/64] fix: the faces of a polyhedron with duplicate vertices
 indexed into its unique vertices

---
 src/polyhedron_faces.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 6ce28fd..8c697e6 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -59,7 +59,8 @@ namespace brille::polyhedron{
       if (max > 2u) {
         _faces = polygon_faces(a, b, c, fpv, unique_vertices);
         debug_update("First-pass faces:\n", _faces);
-        if (polygon_face_vertex_purge(unique_vertices, _faces)) {
+        auto purged = polygon_face_vertex_purge(unique_vertices, _faces);
+        if (purged || unique_vertices.size(0) < vertices.size(0)) {
           debug_update("Some vertices purged. Now vertices\nnp.array(\n",
                        get_xyz(unique_vertices).to_string(), "),\n", _faces);
           // the _faces vectors point into the smaller unique_vertices, so we
@@ -87,7 +88,8 @@ namespace brille::polyhedron{
       auto v = T(1) * vertices;
       std::tie(v, _faces) = remove_duplicate_points_and_update_face_indexing(v, _faces);
       _faces = polygon_faces(_faces, v);
-      if (polygon_face_vertex_purge(v, _faces)){
+      auto purged = polygon_face_vertex_purge(v, _faces);
+      if (purged || v.size(0) < vertices.size(0)){
         debug_update("Some vertices purged. Now vertices\nnp.array(\n", get_xyz(v).to_string(), "),\n", _faces);
         // the _faces vectors point into the smaller unique_vertices, so we
         // need to find *an* equivalent vertex in vertices for each retained
-- 
2.43.0


From db9fae7978e4960ece095fe551f20cbe6757bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 43/64] fix: polygon faces with three co-linear first points
 were dropped

---
 src/geometry.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 812a614..2124088 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -346,7 +346,11 @@ namespace brille {
     auto facet = points - centre;
     // pick the first on-face vector to be our x-axis
     auto x = facet.view(0).decouple(); // decouple since we're going to normalise this
-    auto z = three_point_normal(facet, 0, 1, 2);
+    // the first three points may be co-linear, so find one which is not
+    ind_t third{2};
+    while (third < facet.size(0) && pseudo_colinear(facet.view(0), facet.view(1), facet.view(third))[0]) ++third;
+    if (third >= facet.size(0)) return false; // all points are co-linear
+    auto z = three_point_normal(facet, ind_t(0), ind_t(1), third);
     auto y = cross(z, x);
     x /= norm(x);
     y /= norm(y);
@@ -844,7 +848,10 @@ namespace brille {
   sort_convex_polygon_face(const std::vector<I>& face, const A<T>& vertices){
     auto a = vertices.view(face[0]);
     auto b = vertices.view(face[1]);
-    auto c = vertices.view(face[2]);
+    // the first three points may be co-linear, so find one which is not
+    size_t third{2};
+    while (third + 1 < face.size() && pseudo_colinear(a, b, vertices.view(face[third]))[0]) ++third;
+    auto c = vertices.view(face[third]);
     return sort_convex_polygon_face(a, b, c, face, vertices);
   }
 
-- 
2.43.0


From 93ebed568fa471ec3339497eb02d8b8e89bff3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 44/64] fix: faces of a convex hull with rounded co-planar
 points were not found

---
 src/geometry.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 2124088..221a210 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -671,6 +671,7 @@ namespace brille {
         if (r == i || r == j || r == k) continue;
         auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
 //        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
+        if (approx_float::scalar(d, T(0), Ttol, Ttol, tol)) continue; // on the plane
         positive &= d >= 0;
         negative &= d <= 0;
       }
-- 
2.43.0


From cdb3206f6bab719e7a92dc7914136b0eb9a870d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 45/64] fix: rounded irreducible faces on the Brillouin zone
 surface were kept as wedge normals

---
 src/bz.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bz.cpp b/src/bz.cpp
index 9895b38..f05c7b0 100644
--- a/src/bz.cpp
+++ b/src/bz.cpp
@@ -26,8 +26,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
   auto bz_p = this->get_points();
   for (ind_t i=0; i<bz_n.size(0); ++i){
     // check if the irBZ face point is on a first BZ zone face too
-    // FIXME Add tolerance here
-    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0.);
+    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0., float_tolerance, approx_tolerance);
     if (!not_bz.any())
       throw std::runtime_error("Why are all of the points on the first BZ surface?!");
     ir_n = ir_n.extract(not_bz);
-- 
2.43.0


From fb1464275ce34a9496aadeceb832081948a6e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 46/64] fix: points could not be moved into the conventional
 Brillouin zone of a centred lattice

---
 src/bz_move.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index efe713c..336e2db 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -108,7 +108,7 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
   LVec<double> qprim(q.type(), _inner);
   LVec<int> tauprim(tau.type(), _inner);
   PrimitiveTransform PT(_outer.bravais());
-  bool transform_needed = PT.does_anything() && _outer.is_same(Q.lattice());
+  bool transform_needed = this->isprimitive() && PT.does_anything() && _outer.is_same(Q.lattice());
   if (!(already_same || transform_needed)){
     std::string msg = "Q points provided to BrillouinZone::moveinto must be ";
     msg += "in the standard or primitive lattice used to define ";
@@ -121,9 +121,9 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
 //  auto & tausl = transform_needed? tauprim : tau;
 
   auto [a, b, c] = _first.planes();
-  auto pa = parallel_transform_to_primitive(_outer, a, threads);
-  auto pb = parallel_transform_to_primitive(_outer, b, threads);
-  auto pc = parallel_transform_to_primitive(_outer, c, threads);
+  auto pa = this->isprimitive() ? parallel_transform_to_primitive(_outer, a, threads) : a;
+  auto pb = this->isprimitive() ? parallel_transform_to_primitive(_outer, b, threads) : b;
+  auto pc = this->isprimitive() ? parallel_transform_to_primitive(_outer, c, threads) : c;
 
 //  // more than one thread == slow??
 //  this->_moveinto_prim(Qsl, qsl, tausl, pa, pb, pc, threads);
-- 
2.43.0


From 651a2fbc3b1b12c5daaa660b92918b33c6b12c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 47/64] fix: the interpolated vectors of a nest had the shape
 of its values

---
 src/nest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index cd18613..555565b 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -358,7 +358,7 @@ public:
   interpolate_at(const vert_t& x) const {
     this->check_before_interpolating(x);
     auto valsh = data_.values().shape();
-    auto vecsh = data_.values().shape();
+    auto vecsh = data_.vectors().shape();
     valsh[0] = x.size(0);
     vecsh[0] = x.size(0);
     brille::Array<DataValues> vals(valsh);
-- 
2.43.0


From 098efeb233b9496c213a2229079078bf16516557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 48/64] fix: copies of a mesh did not keep its approximate
 comparison configuration

---
 src/mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index dd33755..71ed635 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -85,6 +85,7 @@ public:
   Mesh3(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
   }
   //Mesh3(TetTri  m, const data_t& d): mesh(std::move(m)), data_(d) {}
   Mesh3(mesh_t m, data_t d, approx_t a): mesh(std::move(m)), data_(std::move(d)), approx_(a) {}
@@ -93,6 +94,7 @@ public:
   auto& operator=(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
     return *this;
   }
   [[nodiscard]] approx_t approx_config() const {return approx_;}
-- 
2.43.0


From ff4deca6e3db42a4f926159d17de40c21fdd4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 49/64] fix: interpolating outside of a mesh with threads
 returned uninitialised values

---
 src/mesh.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index 71ed635..f50ce76 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -177,12 +177,19 @@ public:
     brille::Array2<DataVectors> vecs2(vecs);
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) schedule(dynamic)
+    ind_t unfound{0};
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:unfound) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long>(si);
       auto verts_weights = this->mesh.locate(x.view(i));
-      data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      if (verts_weights.size() < 1) {
+        ++unfound;
+      } else {
+        data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      }
     }
+    if (unfound > 0)
+      throw std::runtime_error("Point not found in tetrahedral mesh");
     return std::make_tuple(vals, vecs);
   }
   //! Return the neighbours for which a passed boolean array holds true
-- 
2.43.0


From d59b7d663bc8c1be7de3d454e85fec7e6bb80865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:54 +0000
Subject: [PATCH 50/64] fix: convex hulls of large or small polyhedra lost
 faces since the tolerance did not scale

---
 src/geometry.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 221a210..e7a8b37 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -651,6 +651,14 @@ namespace brille {
     return out;
   }
 
+  //! The cube of the largest distance from the first point to any other, or one if there is no other
+  template<class T, template<class> class A>
+  std::enable_if_t<isArray<T,A>, T>
+  cubed_extent(const A<T>& points){
+    auto extent = points.size(0) > 1 ? norm(points - points.view(0)).max(0).sum() : T(0);
+    return extent > T(0) ? extent * extent * extent : T(1);
+  }
+
   template<class T, template<class> class A>
   std::enable_if_t<isBareArray<T, A>, std::tuple<Array2<T>, Array2<T>, Array2<T>>>
   find_convex_hull_planes(const A<T>& points, const T Ttol=T(0), const int tol=1){
@@ -662,6 +670,7 @@ namespace brille {
     auto ibc = static_cast<ind_t>(bc);
     A<T> n(ibc, 3u), a(ibc, 3u), b(ibc, 3u), c(ibc, 3u);
     ind_t count{0}, no{points.size(0)};
+    const auto scale = cubed_extent(points); // relative tolerance for the volumes
     for (ind_t i=0; i < no-2; ++i) for (ind_t j=i+1; j < no-1; ++j) for (ind_t k=j+1; k<no; ++k) {
       if (pseudo_colinear(points.view(i), points.view(j), points.view(k), Ttol, tol)[0]) {
         continue;
@@ -671,7 +680,7 @@ namespace brille {
         if (r == i || r == j || r == k) continue;
         auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
 //        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
-        if (approx_float::scalar(d, T(0), Ttol, Ttol, tol)) continue; // on the plane
+        if (approx_float::scalar(d / scale, T(0), Ttol, Ttol, tol)) continue; // on the plane
         positive &= d >= 0;
         negative &= d <= 0;
       }
@@ -733,13 +742,14 @@ namespace brille {
   find_planes_containing_point(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& points, const T Ttol=T(0), const int tol=1){
     std::vector<std::vector<ind_t>> result;
     result.reserve(points.size(0));
+    const auto scale = cubed_extent(points); // relative tolerance for the volumes
     for (ind_t i=0; i < points.size(0); ++i){
       const auto d{points.view(i)};
       std::vector<ind_t> plane;
       plane.reserve(a.size(0));
       auto vol = pseudo_orient3d(a, b, c, d);
       for (ind_t j=0; j < vol.size(); ++j) {
-        if (approx_float::scalar(vol[j], T(0), Ttol, Ttol, tol)) {
+        if (approx_float::scalar(vol[j] / scale, T(0), Ttol, Ttol, tol)) {
           plane.push_back(j);
         }
       }
-- 
2.43.0


From 9f56dea97e7f290851d081d79a070ee98d9a09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:26 +0000
Subject: [PATCH 51/64] fix: points accepted at the limit of the tolerance
 could not be moved into the Brillouin zone

---
 src/bz.hpp      | 5 +++--
 src/bz_move.cpp | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 470f858..8af9190 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -624,11 +624,12 @@ public:
 
   /*! \brief Determine whether points are inside of the first Brillouin zone
     @param p A reference to a lattice::LVec list of Q points to be checked
+    @param tolerance_factor a multiplier for the floating point tolerance
     @returns A `std::vector<bool>`` with each element indicating if the
              associated Q point is inside of the Brillouin zone.
   */
   template <class T>
-  [[nodiscard]] std::vector<bool> isinside(const lattice::LVec<T> &p) const {
+  [[nodiscard]] std::vector<bool> isinside(const lattice::LVec<T> &p, const double tolerance_factor = 1.0) const {
     bool inner = _inner.is_same(p.lattice());
     if (!(inner || _outer.is_same(p.lattice())))
       throw std::runtime_error(
@@ -638,7 +639,7 @@ public:
     inner &= PT.does_anything();
     if (inner)
       pp = transform_from_primitive(_outer, p);
-    return _first.contains(inner ? pp : p, float_tolerance, approx_tolerance);
+    return _first.contains(inner ? pp : p, tolerance_factor * float_tolerance, approx_tolerance);
   }
   /*! \brief Determine whither points are inside the irreducible reciprocal
   space wedge
diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index 336e2db..30f06a7 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -146,7 +146,9 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
     q = q_tau.first;
     tau = q_tau.second;
   }
-  auto allinside = this->isinside(q);
+  // the points were moved relative to the (possibly primitive) planes; rounding errors in going back to the
+  // conventional lattice must not reject those which are accepted at the limit of the tolerance
+  auto allinside = this->isinside(q, 2.0);
 
   if (std::count(allinside.begin(), allinside.end(), false) > 0){
     std::transform(allinside.begin(), allinside.end(), allinside.begin(), [](const auto & x){return !x;});
-- 
2.43.0


From 57b7b2477e7d3713c0bc7941ef1496c076078c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:52 +0000
Subject: [PATCH 52/64] fix: triangulations which should include the zone
 centre could lose it, or crash

---
 src/array_tetgen.hpp         | 81 ++++++++++++++++++++++++++++++++++++
 src/triangulation_poly.hpp   | 15 +------
 src/triangulation_simple.hpp | 15 ++-----
 3 files changed, 86 insertions(+), 25 deletions(-)

diff --git a/src/array_tetgen.hpp b/src/array_tetgen.hpp
index f58ed3d..8a4fbec 100644
--- a/src/array_tetgen.hpp
+++ b/src/array_tetgen.hpp
@@ -1,6 +1,11 @@
 #ifndef BRILLE_ARRAY_TETGET_HPP_
 #define BRILLE_ARRAY_TETGET_HPP_
 
+#include <algorithm>
+#include <array>
+#include <cmath>
+#include <utility>
+#include <vector>
 //#include <Eigen/Core>
 //#include <Eigen/Cholesky>
 
@@ -29,5 +34,81 @@ namespace brille {
     return four_point_sphere(v.view(i[0]), v.view(i[1]), v.view(i[2]), v.view(i[3]));
   }
 
+  /*! \brief Add the origin to the points of a convex piecewise linear complex
+
+  Points which are part of the input are always vertices of the triangulation,
+  unlike points inserted into an existing triangulation which might be moved.
+  A point on a facet must be listed as an isolated vertex of that facet, one on
+  an edge must be part of the polygons sharing that edge.
+
+  \param tgi The input structure with its points and outward facing facets, each
+             of one polygon. It is not modified if the origin is outside.
+  */
+  inline void add_origin(tetgenio& tgi){
+    auto x = [&tgi](int i, int j){ return tgi.pointlist[3*i+j]; };
+    double longest{0.};
+    for (int i=0; i<tgi.numberofpoints; ++i)
+      longest = (std::max)(longest, std::sqrt(x(i,0)*x(i,0) + x(i,1)*x(i,1) + x(i,2)*x(i,2)));
+    const double tol{1e-8*longest};
+    std::vector<std::pair<int,int>> on; // facet and position along its border, or -1
+    for (int f=0; f<tgi.numberoffacets; ++f){
+      const auto & p = tgi.facetlist[f].polygonlist[0];
+      std::array<double,3> n{{0., 0., 0.}};
+      int edge{-1};
+      for (int k=0; k<p.numberofvertices; ++k){
+        int a{p.vertexlist[k]}, b{p.vertexlist[(k+1)%p.numberofvertices]};
+        double cc{0.}, dd{0.}, ab{0.};
+        for (int j=0; j<3; ++j) {
+          double c = x(a,(j+1)%3)*x(b,(j+2)%3) - x(a,(j+2)%3)*x(b,(j+1)%3);
+          double d = x(b,j) - x(a,j);
+          n[j] += c;
+          cc += c*c;
+          dd += d*d;
+          ab += x(a,j)*x(b,j);
+        }
+        if (ab < 0. && cc < tol*tol*dd) edge = k;
+      }
+      int v{p.vertexlist[0]};
+      double norm = std::sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2]);
+      double distance = (n[0]*x(v,0) + n[1]*x(v,1) + n[2]*x(v,2))/norm;
+      if (distance < -tol) return; // the origin is outside
+      if (distance < tol) on.emplace_back(f, edge);
+    }
+    const int no{tgi.numberofpoints};
+    auto points = new double[3*(no+1)];
+    auto markers = new int[no+1];
+    std::copy(tgi.pointlist, tgi.pointlist+3*no, points);
+    std::copy(tgi.pointmarkerlist, tgi.pointmarkerlist+no, markers);
+    for (int j=0; j<3; ++j) points[3*no+j] = 0.;
+    markers[no] = no;
+    delete[] tgi.pointlist;
+    delete[] tgi.pointmarkerlist;
+    tgi.pointlist = points;
+    tgi.pointmarkerlist = markers;
+    tgi.numberofpoints = no + 1;
+    for (const auto & [f, edge]: on){
+      auto & facet = tgi.facetlist[f];
+      if (edge < 0) {
+        auto polygons = new tetgenio::polygon[2];
+        polygons[0] = facet.polygonlist[0];
+        polygons[1].numberofvertices = 1;
+        polygons[1].vertexlist = new int[1];
+        polygons[1].vertexlist[0] = no;
+        delete[] facet.polygonlist;
+        facet.polygonlist = polygons;
+        facet.numberofpolygons = 2;
+      } else {
+        auto & p = facet.polygonlist[0];
+        auto list = new int[p.numberofvertices+1];
+        std::copy(p.vertexlist, p.vertexlist+edge+1, list);
+        list[edge+1] = no;
+        std::copy(p.vertexlist+edge+1, p.vertexlist+p.numberofvertices, list+edge+2);
+        delete[] p.vertexlist;
+        p.vertexlist = list;
+        ++p.numberofvertices;
+      }
+    }
+  }
+
 }
 #endif
\ No newline at end of file
diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 1b30221..eb2719d 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -85,18 +85,8 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   // so we can call tetrahedralize:
   debug_update("Calling tetgen::tetrahedralize");
   try {
-    if (addGamma && !gammaPresent){
-      tgb.insertaddpoints = 1;
-      tetgenio add_in;
-      add_in.numberofpoints = 1;
-      add_in.pointlist = new double[3];
-      add_in.pointmarkerlist = new int[1];
-      for (int j=0; j<3; ++j) add_in.pointlist[j] = 0.;
-      add_in.pointmarkerlist[0] = points.size(0);
-      tetrahedralize(&tgb, &tgi, &tgo, &add_in);
-    } else {
-      tetrahedralize(&tgb, &tgi, &tgo);
-    }
+    if (addGamma && !gammaPresent) add_origin(tgi);
+    tetrahedralize(&tgb, &tgi, &tgo);
   } catch (const std::logic_error& e) {
     std::string msg = "tetgen threw a logic error with message\n" + std::string(e.what());
     throw std::runtime_error(msg);
@@ -122,7 +112,6 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
     }
   }
   auto extra = tgo.numberofpoints - tgi.numberofpoints;
-  if (addGamma && !gammaPresent) extra -= 1; // we know about Gamma already
   return std::make_tuple(extra, position, tetrahedra);
 }
 template<class T, template<class> class A>
diff --git a/src/triangulation_simple.hpp b/src/triangulation_simple.hpp
index 8253887..966220c 100644
--- a/src/triangulation_simple.hpp
+++ b/src/triangulation_simple.hpp
@@ -23,6 +23,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 */
 #include "array_.hpp" // defines bArray
 #include "tetgen.h"
+#include "array_tetgen.hpp"
 namespace brille {
 
 /*! \brief A class to handle interaction with `TetGen`
@@ -121,18 +122,8 @@ public:
     // so we can call tetrahedralize:
     debug_update("Calling tetgen::tetrahedralize");
     try {
-      if (addGamma && !gammaPresent){
-        tgb.insertaddpoints = 1;
-        tetgenio addin;
-        addin.numberofpoints = 1;
-        addin.pointlist = new double[3];
-        addin.pointmarkerlist = new int[1];
-        for (int j=0; j<3; ++j) addin.pointlist[j] = 0.;
-        addin.pointmarkerlist[0] = verts.size(0);
-        tetrahedralize(&tgb, &tgi, &tgo, &addin);
-      } else {
-        tetrahedralize(&tgb, &tgi, &tgo);
-      }
+      if (addGamma && !gammaPresent) add_origin(tgi);
+      tetrahedralize(&tgb, &tgi, &tgo);
     } catch (const std::logic_error& e) {
       std::string msg = "tetgen threw a logic error with message\n" + std::string(e.what());
       throw std::runtime_error(msg);
-- 
2.43.0


From 4110f056be3d1b7d00de7ea76edcd449f48c9951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:33 +0000
Subject: [PATCH 53/64] fix: the interpolation weights of trellis cubes were
 wrong for lattice vectors

---
 src/trellis_node.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trellis_node.hpp b/src/trellis_node.hpp
index 2942ab3..298d127 100644
--- a/src/trellis_node.hpp
+++ b/src/trellis_node.hpp
@@ -134,9 +134,10 @@ namespace brille {
       // the 8 corners of the cube. Those indices should be ordered
       // (000) (100) (110) (010) (101) (001) (011) (111)
       // so that vertex_indices[i] and vertex_indices[7-i] are connected by a body diagonal
-      auto node_verts = vertices.extract(vertex_indices);
+      // The node is a cuboid in the absolute xyz frame, not (necessarily) in lattice units
+      auto node_verts = get_xyz(vertices.extract(vertex_indices));
       T node_volume = abs(node_verts.view(0)-node_verts.view(7)).prod(1)[0];
-      auto w = abs(x - node_verts).prod(1)/node_volume; // the normalised volume of each sub-parallelpiped
+      auto w = abs(get_xyz(x) - node_verts).prod(1)/node_volume; // the normalised volume of each sub-parallelpiped
       // If any normalised weights are greater than 1+eps() the point isn't in this node
       iw.clear();
       if (w.any(brille::cmp::gt, T(1)) && !should_contain) return false;
-- 
2.43.0


From d813dc7738b8f028cac4ff0bd406eb8306c1e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:33 +0000
Subject: [PATCH 54/64] fix: locating a point outside of a layered
 triangulation read out of bounds

---
 src/triangulation_layers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index a9379ec..0fdfe48 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -410,6 +410,8 @@ public:
     ind_t idx = layers[0].unsafe_locate(x,vw);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
+      // the point is outside of the triangulation if it was not found in the previous layer
+      if (idx >= layers[i-1].number_of_tetrahedra()) break;
       const TetSet& tosearch = connections[i-1][idx];
       idx = layers[i].unsafe_locate(tosearch, x, vw);
     }
-- 
2.43.0


From 74ae517e79210b2e561c19c7645570d33759dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:33 +0000
Subject: [PATCH 55/64] fix: locating a point outside of a polyhedron trellis
 read out of bounds

---
 src/trellis_poly.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 74a2dc6..8e943e7 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -250,7 +250,9 @@ public:
     // if node_index does not throw an error then the indicated node *should*
     // contain the interpolation point (but rounding might be a problem)
     const bool should_contain = true;
-    nodes_.indices_weights(this->node_index(x), vertices_, x, iw, should_contain);
+    auto sub = this->node_subscript(x);
+    if (!subscript_ok(sub)) return iw; // the point is outside of the binned region
+    nodes_.indices_weights(this->sub2idx(sub), vertices_, x, iw, should_contain);
     return iw;
   }
   //! Check that the held data can be used for linear interpolation
@@ -424,7 +426,7 @@ public:
       }
       if (!bad) sub = newsub;
       else {
-        auto node_type = nodes_.node_type_string(sub2idx(sub));
+        std::string node_type = subscript_ok(sub) ? nodes_.node_type_string(sub2idx(sub)) : "non-existent";
         info_update("The node subscript ", sub, " for the point\n\t(hkl) ",
                     p.to_string(0u), "\n\t(xyz) [[", pos, "]]\n",
                     " is either invalid or a ", node_type, " node");
-- 
2.43.0


From 6399d9b9084e776b0c18ded769c7441058b0e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:40 +0000
Subject: [PATCH 56/64] fix: the vector cost function of an Interpolator was
 lost when it was written and read

---
 src/interpolator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 7fcba0b..12a40d2 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -260,28 +260,28 @@ public:
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_distance(n, i, j);
       };
-      _funtype[0] = 1;
+      _funtype[1] = 1;
       break;
       case 2:
       debug_update("selecting 1-brille::utils::vector_product");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return 1-brille::utils::vector_product(n, i, j);
       };
-      _funtype[0] = 2;
+      _funtype[1] = 2;
       break;
       case 3:
       debug_update("selecting brille::utils::vector_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_angle(n, i, j);
       };
-      _funtype[0] = 3;
+      _funtype[1] = 3;
       break;
       case 4:
       debug_update("selecting brille::utils::hermitian_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
          return brille::utils::hermitian_angle(n,i,j);
       };
-      _funtype[0] = 4;
+      _funtype[1] = 4;
       break;
       default:
       debug_update("selecting sin**2(brille::utils::hermitian_angle)");
-- 
2.43.0


From 81d29c475f384687f308c58b13bdd7a3b9b43db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:40 +0000
Subject: [PATCH 57/64] =?UTF-8?q?fix:=20tensors=20which=20transform=20like?=
 =?UTF-8?q?=20=CE=93=20were=20not=20rotated,=20or=20with=20the=20wrong=20a?=
 =?UTF-8?q?toms=20and=20phases?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/interpolator_gamma.tpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index c45db2e..bd88363 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -64,8 +64,8 @@ bool Interpolator<T>::rip_gamma_complex(
   if (!std::any_of(no.begin()+1, no.end(), [](ind_t n){return n>0;}))
     return false;
   // for Γ transformations of tensors, there *must* be N×N in total:
-  ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
-  if (no[2] != 9*Nmat*Nmat){
+  ind_t Nmat = static_cast<ind_t>(std::round(std::sqrt(no[2])));
+  if (no[2] != Nmat*Nmat){
     std::cout << "Atomic displacement Gamma transformation requires NxN 3x3 tensors!" << std::endl;
     return false;
   }
@@ -116,10 +116,11 @@ bool Interpolator<T>::rip_gamma_complex(
       if (no[2]>0){
         if (tA.size() < no[2]*9u) tA.resize(no[2]*9u);
         for (ind_t n=0; n<Nmat; ++n){
-          T Rph = e_iqd_gt(i, n, Rii);
-          ind_t v = static_cast<ind_t>(pgt.F0(n, Rii));
+          // both indices of the tensor transform as those of a vector, M = ϵ ϵ†
+          T Rph = e_iqd_gt(i, n, iRii);
+          ind_t v = static_cast<ind_t>(pgt.F0(n, iRii));
           for (ind_t m=0; m<Nmat; ++m){
-            T iRph = e_iqd_gt(i, m, iRii);
+            T iRph = std::conj(e_iqd_gt(i, m, iRii));
             ind_t k = static_cast<ind_t>(pgt.F0(m, iRii));
             // Calculate R⁻¹*M*R in two steps
             // first calculate M*R, storing in t0
-- 
2.43.0


From c48b623813fdbb56871c5a506504cc169ad5c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:41 +0000
Subject: [PATCH 58/64] fix: the mode costs of real valued vectors were
 calculated from uninitialised memory

---
 src/utilities.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index e2561cf..8744ce8 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -527,7 +527,7 @@ template<class T> T magnitude(const std::complex<T> a){
   // undocumented real-valued (default) functions:
   template<class T> T antiphase(const T){return T(1);}
   template<class I, class T> T antiphase(const I, const T*, const T*){return T(1);}
-  template<class I, class T> void inplace_antiphase(const I, const T*, const T*, T*) {}
+  template<class I, class T> void inplace_antiphase(const I n, const T*, const T* b, T* phased) {for (I i=0; i<n; ++i) phased[i] = b[i];}
   template<class T, template<class> class A> T unsafe_antiphase(const A<T>&, const A<T>&){return T(1);}
 #endif
 /*! \brief Find the reciprocal phase of a complex number
-- 
2.43.0


From 195ec3bab2a4377d75c8b548015ce8792bbf17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:41 +0000
Subject: [PATCH 59/64] fix: interpolating outside of a nest read past the end
 of the empty list of vertices

---
 src/nest.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nest.hpp b/src/nest.hpp
index 555565b..10b63d5 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -373,6 +373,8 @@ public:
     for (ind_t i=0; i<x.size(0); ++i){
       // auto iw = root_.indices_weights(vertices_, map_, x.extract(i));
       auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+      if (iw.empty())
+        throw std::runtime_error("The point " + x.to_string(i) + " was not found in Nest");
       data_.interpolate_at(iw, vals2, vecs2, i);
     }
     return std::make_tuple(vals, vecs);
-- 
2.43.0


From 67e59201a9ceaaa2c4ec891b5a76c96551a19d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:07 +0000
Subject: [PATCH 60/64] fix: interpolated real space vectors and tensors were
 rotated by the inverse of the required operation

---
 src/interpolator_real.tpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_real.tpp b/src/interpolator_real.tpp
index 3e31f0f..8a6e5b7 100644
--- a/src/interpolator_real.tpp
+++ b/src/interpolator_real.tpp
@@ -42,18 +42,18 @@ bool Interpolator<T>::rip_real(
       for (ind_t b=0; b<b_; ++b){
         // scalar elements do not need to be rotated, so skip them
         ind_t o = b*s_ + no[0];
-        // rotate real vectors: since Q = Rᵀq + τ → Rv
+        // rotate real vectors: since Q = Rᵀq + τ → R⁻¹*v
         for (ind_t v=0; v<no[1]; ++v){
-          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(r[i]).data(), xi+o);
+          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(invR[i]).data(), xi+o);
           for (int j=0; j<3; ++j) x.val(i,o+j) = tmp_v[j];
           o += 3u; // shift 3 for each vector
         }
         for (ind_t m=0; m<no[2]; ++m){
-          // Calculate R*M*R⁻¹ in two steps
-          // first calculate M*R⁻¹, storing in tmp_m
-          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(invR[i]).data());
-          // next calculate R*tmp_m, storing back in the x array
-          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(r[i]).data(), tmp_m);
+          // Calculate R⁻¹*M*R in two steps
+          // first calculate M*R, storing in tmp_m
+          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(r[i]).data());
+          // next calculate R⁻¹*tmp_m, storing back in the x array
+          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(invR[i]).data(), tmp_m);
           o += 9u; // shift 9 for each matrix
         }
       }
-- 
2.43.0


From ad7c39d1c8596689ccd6d9a1d579dc3e21036974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:16 +0000
Subject: [PATCH 61/64] fix: replacing interpolator data with incompatible
 elements left the interpolator inconsistent

---
 src/interpolator.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 12a40d2..ce03aa6 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -449,17 +449,21 @@ public:
       const RotatesLike rl = RotatesLike::vector,
       const LengthUnit lu = LengthUnit::real_lattice)
   {
-    data_ = nd;
-    shape_ = sh;
-    rotlike_ = rl;
-    lenunit_ = lu;
     // convert the elements datatype as necessary
     if (ne[1]%3)
       throw std::logic_error("Vectors must have 3N elements per branch");
     if (ne[2]%9)
       throw std::logic_error("Matrices must have 9N elements per branch");
-    for (size_t i=0; i<3u; ++i) _elements[i] = static_cast<ind_t>(ne[i]);
-    this->check_elements();
+    // this object should not be modified if the data and elements are not compatible
+    Interpolator<T> checked(*this);
+    checked.shape_ = sh;
+    for (size_t i=0; i<3u; ++i) checked._elements[i] = static_cast<ind_t>(ne[i]);
+    checked.check_elements();
+    data_ = nd;
+    shape_ = checked.shape_;
+    _elements = checked._elements;
+    rotlike_ = rl;
+    lenunit_ = lu;
   }
   /*! \brief Replace the data within this object.
 
@@ -479,17 +483,21 @@ public:
       const RotatesLike rl = RotatesLike::vector,
       const LengthUnit lu = LengthUnit::real_lattice)
   {
-    data_ = bArray<T>(nd);
-    shape_ = nd.shape();
-    rotlike_ = rl;
-    lenunit_ = lu;
     // convert the elements datatype as necessary
     if (ne[1]%3)
       throw std::logic_error("Vectors must have 3N elements per branch");
     if (ne[2]%9)
       throw std::logic_error("Matrices must have 9N elements per branch");
-    for (size_t i=0; i<3u; ++i) _elements[i] = static_cast<ind_t>(ne[i]);
-    this->check_elements();
+    // this object should not be modified if the data and elements are not compatible
+    Interpolator<T> checked(*this);
+    checked.shape_ = nd.shape();
+    for (size_t i=0; i<3u; ++i) checked._elements[i] = static_cast<ind_t>(ne[i]);
+    checked.check_elements();
+    data_ = bArray<T>(nd);
+    shape_ = checked.shape_;
+    _elements = checked._elements;
+    rotlike_ = rl;
+    lenunit_ = lu;
   }
   // Replace the data in this object without specifying the data shape or its elements
   // this variant is necessary since the template specialization above can not have a default value for the elements
-- 
2.43.0


From 28a22f08eabc193b645c4a21db52f83cdaf67511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:25 +0000
Subject: [PATCH 62/64] fix: names of unknown space groups were read as Hall
 symbols of other groups

---
 src/hall_symbol.cpp  | 4 ++++
 src/lattice_dual.hpp | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 1dccc68..95e4eca 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -28,6 +28,8 @@ bool HallSymbol::from_ascii(const std::string& s){
   // bool hasspace = s.find(' ') != std::string::npos;
 
   bool isneg = false, issup = false, issub = false;
+  // any character which is not part of the notation means this is not a Hall symbol
+  if (s.substr(0, s.find('(')).find_first_not_of("PABCIRF12346abcnuvwd5xyz'\"*^_- ") != std::string::npos) return false;
   SeitzSymbol ssym;
   std::istringstream stream(s);
   while (stream.good()){
@@ -253,6 +255,8 @@ Matrix<int> SeitzSymbol::inner_getr(const char ax, const char pax) const {
     } break;
     default: throw std::runtime_error("Impossible rotation order in Seitz symbol");
   }
+  if (std::all_of(out.begin(), out.end(), [](const int x){return x==0;}))
+    throw std::runtime_error("Impossible axis for rotation order in Seitz symbol");
   // space invert the rotation if necessary
   if (N<0) for (size_t i=0; i<9; ++i) out[i] *= -1;
   return out;
diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index 907a920..16c4286 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -513,13 +513,17 @@ private:
       _space = sp.get_spacegroup_symmetry();
       _point = sp.get_pointgroup_symmetry();
     } else {
-      auto hs = HallSymbol(s);
+      HallSymbol hs;
       Symmetry gens;
-      if (hs.validate()){
+      if (hs.from_ascii(s)){
         gens = hs.get_generators();
         _bravais = hs.getl();
       } else {
+        // the only remaining possibility is motions like 'x,y,z', which are invertible
+        if (s.find(',') == std::string::npos) throw std::runtime_error("Unknown spacegroup " + s);
         gens.from_ascii(s);
+        for (const auto & r: gens.getallr()) if (brille::utils::matrix_determinant(r.data()) == 0)
+          throw std::runtime_error("Unknown spacegroup " + s);
       }
       spacegroup_symmetry(gens);
     }
-- 
2.43.0


From 6f74be13bcd77bb056686314288002f740270652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:44 +0000
Subject: [PATCH 63/64] fix: interpolating with data for too few vertices read
 past the end of the data

---
 src/mesh.hpp           | 2 ++
 src/nest.hpp           | 2 ++
 src/trellis_poly.hpp   | 2 ++
 src/trellis_poly_l.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index f50ce76..d780738 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -122,6 +122,8 @@ public:
     unsigned int mask = 0u;
     if (data_.size()==0)
       throw std::runtime_error("The interpolation data must be filled before interpolating.");
+    if (data_.size()!=this->vertex_count())
+      throw std::runtime_error("The interpolation data must have one entry per vertex.");
     if (x.ndim()!=2 || x.size(1)!=3u)
       throw std::runtime_error("Only (n,3) two-dimensional Q vectors supported in interpolating.");
     if (x.stride().back()!=1)
diff --git a/src/nest.hpp b/src/nest.hpp
index 10b63d5..040285f 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -348,6 +348,8 @@ public:
     unsigned int mask = 0u;
     if (data_.size()==0)
       throw std::runtime_error("The interpolation data must be filled before interpolating.");
+    if (data_.size()!=this->vertex_count())
+      throw std::runtime_error("The interpolation data must have one entry per vertex.");
     if (x.ndim()!=2 || x.size(1)!=3u)
       throw std::runtime_error("Only (n,3) two-dimensional Q vectors supported in interpolating.");
     if (x.stride().back()!=1)
diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 8e943e7..f05b2fa 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -260,6 +260,8 @@ public:
     unsigned int mask = 0u;
     if (data_.size()==0)
       throw std::runtime_error("The interpolation data must be filled before interpolating.");
+    if (data_.size()!=this->vertex_count())
+      throw std::runtime_error("The interpolation data must have one entry per vertex.");
     if (x.ndim()!=2 || x.size(1)!=3u)
       throw std::runtime_error("Only (n,3) two-dimensional Q vectors supported in interpolating.");
     if (x.stride().back()!=1)
diff --git a/src/trellis_poly_l.hpp b/src/trellis_poly_l.hpp
index 3578996..178d809 100644
--- a/src/trellis_poly_l.hpp
+++ b/src/trellis_poly_l.hpp
@@ -244,6 +244,8 @@ public:
     unsigned int mask = 0u;
     if (data_.size()==0)
       throw std::runtime_error("The interpolation data must be filled before interpolating.");
+    if (data_.size()!=this->vertex_count())
+      throw std::runtime_error("The interpolation data must have one entry per vertex.");
     if (x.ndim()!=2 || x.size(1)!=3u)
       throw std::runtime_error("Only (n,3) two-dimensional Q vectors supported in interpolating.");
     if (x.stride().back()!=1)
-- 
2.43.0


From 60f50a01a4108e273e715481112325162b48178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:51 +0000
Subject: [PATCH 64/64] fix: reading a lattice, or taking its primitive
 lattice, snapped a basis which was not to be snapped

---
 src/lattice_dual.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index 16c4286..fce959b 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -731,7 +731,8 @@ public:
     auto spg = Symmetry::from_hdf(group, "spacegroup_symmetry");
     auto ptg = PointSymmetry::from_hdf(group, "pointgroup_symmetry");
     auto bas = Basis::from_hdf(group, "basis");
-    return {real, reciprocal, real_metric, reciprocal_metric, L, spg, ptg, bas};
+    // the stored basis was snapped to symmetry already, if this was requested
+    return {real, reciprocal, real_metric, reciprocal_metric, L, spg, ptg, bas, false};
   }
 
   Impl<T> primitive() const {
@@ -767,7 +768,8 @@ public:
       // strictly we should change the spacegroup and pointgroup symmetry
       // representations, plus the atom basis representation... but that seems
       // overkill for now. FIXME think about this more.
-      return {pv, pr, pvm, prm, Bravais::P, _space, _point, _basis};
+      // the basis was snapped to symmetry already, if this was requested
+      return {pv, pr, pvm, prm, Bravais::P, _space, _point, _basis, false};
     }
     return *this;
   }
-- 
2.43.0

