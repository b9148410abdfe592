From dc21ca8bc5f92597e5d552b2154e7b3e9ee7ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 01/14] fix: compare repeated points only with points of their
 own loop

A loop lost its first point when it was equal to the last point of the loop
added before it, and repeating the first point more than once at the end of a
loop left a line of zero length.
---
 include/poly_ops/clip.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 299a75d..0974b37 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2027,8 +2027,6 @@ public:
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::finalize_prev() {
-    if(!n.lpoints.empty() && prev == n.lpoints.back().data) return;
-
     if(pt) {
         switch(n.lpoints.size() - std::size_t(first_i)) {
         case 0:
@@ -2051,10 +2049,13 @@ void clipper<Coord,Index>::point_sink::finalize_prev() {
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index orig_i) {
-    if(started) finalize_prev();
+    n._next_orig_i = orig_i + 1;
+    if(started) {
+        if(p == prev) return;
+        finalize_prev();
+    }
     prev = p;
     prev_orig_i = orig_i;
-    n._next_orig_i = orig_i + 1;
     started = true;
 }
 template<coordinate Coord,std::integral Index>
-- 
2.43.0


From d01862075cf7b4c37d6505c933756a5d410bb3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 02/14] fix: don't read past the end of the points when a loop
 has one distinct point

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 0974b37..96eb03a 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2065,7 +2065,7 @@ clipper<Coord,Index>::point_sink::~point_sink() {
     end-point indices. The sweep sets expect line segments with unique indices.
     */
     if(started) [[likely]] {
-        if(prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
+        if(n.lpoints.size() > std::size_t(first_i) && prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
 
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
         if(points_added < 3) [[unlikely]] {
-- 
2.43.0


From a595ec07c898f2dd28f54fb7280dfa524b8fefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 03/14] fix: keep intersections exact when they have integer
 coordinates

---
 include/poly_ops/clip.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 96eb03a..6670090 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -500,9 +500,12 @@ bool intersects(
         p[0] = x4;
         p[1] = y4;
     } else {
-        auto t = static_cast<real_coord_t<Coord>>(t_i)/static_cast<real_coord_t<Coord>>(d);
-        real_coord_t<Coord> rx = t * static_cast<real_coord_t<Coord>>(x2-x1);
-        real_coord_t<Coord> ry = t * static_cast<real_coord_t<Coord>>(y2-y1);
+        /* The division is done last. Otherwise, the rounding error of the
+        quotient could move an intersection that has integer coordinates. */
+        auto t_r = static_cast<real_coord_t<Coord>>(t_i);
+        auto d_r = static_cast<real_coord_t<Coord>>(d);
+        real_coord_t<Coord> rx = t_r * static_cast<real_coord_t<Coord>>(x2-x1) / d_r;
+        real_coord_t<Coord> ry = t_r * static_cast<real_coord_t<Coord>>(y2-y1) / d_r;
 
         /* Simple rounding is not sufficient because there is a tiny chance that
         lines are arranged such that rounding one intersection reorders the
-- 
2.43.0


From 39ac58334834155f4429c13196e3d02e56100bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:58 +0000
Subject: [PATCH 04/14] fix: mini_flat_set: record the second inserted element
 and invert empty()

---
 include/poly_ops/mini_flat_set.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 849928c..981194b 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -156,7 +156,7 @@ public:
     }
 
     std::size_t size() const noexcept { return _size; }
-    bool empty() const noexcept { return _size != 0; }
+    bool empty() const noexcept { return _size == 0; }
     T *begin() noexcept { return _size > 1 ? u.data->items : &u.item; }
     const T *begin() const noexcept { return _size > 1 ? u.data->items : &u.item; }
     T *end() noexcept { return begin() + _size; }
@@ -178,6 +178,7 @@ public:
 
             u.data->items[i1] = tmp;
             u.data->items[i2] = value;
+            _size = 2;
             return {u.data->items + i2,true};
         } else {
             T* pos = std::upper_bound(u.data->items,u.data->items+_size,value);
-- 
2.43.0


From 44d0f01e939ac3382a9fd9698d9129e7e81ce9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:58 +0000
Subject: [PATCH 05/14] fix: strided_itr: difference and order count elements,
 not bytes

---
 include/poly_ops/strided_itr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/strided_itr.hpp b/include/poly_ops/strided_itr.hpp
index 950bf17..12d3338 100644
--- a/include/poly_ops/strided_itr.hpp
+++ b/include/poly_ops/strided_itr.hpp
@@ -75,11 +75,11 @@ struct strided_itr {
     }
 
     friend std::ptrdiff_t operator-(const strided_itr &a,const strided_itr &b) {
-        return a.ptr - b.ptr;
+        return a.stride ? (a.ptr - b.ptr) / a.stride : 0;
     }
 
     friend auto operator<=>(const strided_itr &a,const strided_itr &b) {
-        return a.ptr <=> b.ptr;
+        return a.stride < 0 ? b.ptr <=> a.ptr : a.ptr <=> b.ptr;
     }
 
     friend auto operator==(const strided_itr &a,const strided_itr &b) {
-- 
2.43.0


From 317c58f904485fcf5124acd7066a7c7e03dcb698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:54 +0000
Subject: [PATCH 06/14] fix: leave out loops made of two overlapping lines

---
 include/poly_ops/clip.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 6670090..2fd4ba5 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1285,10 +1285,20 @@ void find_loops(
 {
     for(Index i=0; i<static_cast<Index>(lpoints.size()); ++i) {
         if(lpoints[i].aux.loop_index == L_INDEX_UNSET) {
-            int loop_i = static_cast<int>(loops.size());
-            loops.emplace_back(
-                loop_location<Index>{i,1},
-                std::pmr::vector<temp_polygon<Index>*>(contig_mem));
+            Index size = 1;
+            for(Index j = lpoints[i].next; j != i; j = lpoints[j].next) {
+                if(lpoints[j].aux.loop_index != L_INDEX_ANCHOR) ++size;
+            }
+
+            /* where lines overlap completely, a pair of opposite lines can end
+            up connected only to each other; such a pair encloses nothing */
+            int loop_i = L_INDEX_DISCARDED;
+            if(size > 2) {
+                loop_i = static_cast<int>(loops.size());
+                loops.emplace_back(
+                    loop_location<Index>{i,size},
+                    std::pmr::vector<temp_polygon<Index>*>(contig_mem));
+            }
 
             /* prevent this point from being scanned again */
             lpoints[i].aux.loop_index = loop_i;
@@ -1300,7 +1310,6 @@ void find_loops(
                 if(lpoints[j].aux.loop_index == L_INDEX_ANCHOR) {
                     lpoints[prev].next = lpoints[j].next;
                 } else {
-                    ++loops.back().loop_loc.size;
                     prev = j;
                 }
                 lpoints[j].aux.loop_index = loop_i;
-- 
2.43.0


From a3cc827d556feab80018007dd5acb905ce5771df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:33 +0000
Subject: [PATCH 07/14] fix: leave out loops that enclose no area

---
 include/poly_ops/clip.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 2fd4ba5..2210140 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1286,14 +1286,19 @@ void find_loops(
     for(Index i=0; i<static_cast<Index>(lpoints.size()); ++i) {
         if(lpoints[i].aux.loop_index == L_INDEX_UNSET) {
             Index size = 1;
+            long_coord_t<Coord> area = 0;
             for(Index j = lpoints[i].next; j != i; j = lpoints[j].next) {
                 if(lpoints[j].aux.loop_index != L_INDEX_ANCHOR) ++size;
+                area += triangle_winding(
+                    lpoints[i].data,
+                    lpoints[j].data,
+                    lpoints[lpoints[j].next].data);
             }
 
-            /* where lines overlap completely, a pair of opposite lines can end
-            up connected only to each other; such a pair encloses nothing */
+            /* where lines overlap completely, opposite lines can end up
+            connected only to each other; such lines enclose nothing */
             int loop_i = L_INDEX_DISCARDED;
-            if(size > 2) {
+            if(area != 0) {
                 loop_i = static_cast<int>(loops.size());
                 loops.emplace_back(
                     loop_location<Index>{i,size},
-- 
2.43.0


From 380109a87595ce38d704b25d3cd0316ccf70bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:55 +0000
Subject: [PATCH 08/14] fix: leave out only loops whose lines overlap
 completely

---
 include/poly_ops/clip.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 2210140..f39f911 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1286,19 +1286,19 @@ void find_loops(
     for(Index i=0; i<static_cast<Index>(lpoints.size()); ++i) {
         if(lpoints[i].aux.loop_index == L_INDEX_UNSET) {
             Index size = 1;
-            long_coord_t<Coord> area = 0;
+            bool degenerate = true;
             for(Index j = lpoints[i].next; j != i; j = lpoints[j].next) {
                 if(lpoints[j].aux.loop_index != L_INDEX_ANCHOR) ++size;
-                area += triangle_winding(
+                if(triangle_winding(
                     lpoints[i].data,
                     lpoints[j].data,
-                    lpoints[lpoints[j].next].data);
+                    lpoints[lpoints[j].next].data) != 0) degenerate = false;
             }
 
             /* where lines overlap completely, opposite lines can end up
             connected only to each other; such lines enclose nothing */
             int loop_i = L_INDEX_DISCARDED;
-            if(area != 0) {
+            if(!degenerate) {
                 loop_i = static_cast<int>(loops.size());
                 loops.emplace_back(
                     loop_location<Index>{i,size},
-- 
2.43.0


From eced751a5276d6ac8227ed4755cc55828a60d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:44 +0000
Subject: [PATCH 09/14] fix: assigning a built-in integer to a compound_xint of
 two words compiles

compound_xint::operator=(const T&) assigned to the result of lo(), a
proxy that has no assignment from a plain value; use set(), as the
constructor does.
---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index ac8cf60..0104746 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -397,7 +397,7 @@ public:
 
     template<safe_comp_or_single_i<N,Signed> T> compound_xint &operator=(const T &b) noexcept {
         if constexpr(N > 1) {
-            lo() = detail::compi_lo<N>(b);
+            lo().set(detail::compi_lo<N>(b));
         }
         hi() = detail::compi_hi<N>(b);
         return *this;
-- 
2.43.0


From 6be505005265b7d0c608cf6e1f02f98bf82d3a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:44 +0000
Subject: [PATCH 10/14] fix: the portable carry and borrow helpers lose carries

With an incoming carry the result was compared with the wrong operand:
a + b + carry where b + carry wraps to zero, or a - b - carry where
b + carry wraps, reported no carry.
---
 include/poly_ops/large_ints.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 0104746..1e8d999 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -569,26 +569,25 @@ namespace detail {
         out = a + b;
         carry_t cr = out < a;
         out += carry;
-        return (out < a) | cr;
+        return (out < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _addcarry_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
         a = a + b;
         carry_t cr = a < b;
         a += carry;
-        return (a < b) | cr;
+        return (a < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow(full_uint a,full_uint b,full_uint &out,carry_t carry=0) noexcept {
-        out = a - b;
-        carry_t cr = out > a;
-        out -= carry;
-        return (out > a) | cr;
+        full_uint diff = a - b;
+        carry_t cr = a < b;
+        out = diff - carry;
+        return (diff < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
-        full_uint prev_a = a;
-        a = a - b;
-        carry_t cr = a > prev_a;
-        a -= carry;
-        return (a > prev_a) | cr;
+        full_uint diff = a - b;
+        carry_t cr = a < b;
+        a = diff - carry;
+        return (diff < carry) | cr;
     }
 #endif
 
-- 
2.43.0


From d73528d11040c1663290ab49f897de06ca106166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:44 +0000
Subject: [PATCH 11/14] fix: conversion of large integers to floating point
 scales words by their width

unsigned_to_float scaled each upper word by 2^(32*N) whatever the width of
the words.
---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 1e8d999..ca9f889 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -347,7 +347,7 @@ template<unsigned int N> using const_compound_xint_ref = _compound_xint_ref<N,tr
 namespace detail {
     template<std::floating_point T,unsigned int N> T unsigned_to_float(const_compound_xint_ref<N> x) noexcept {
         if constexpr(N > 1) {
-            return std::ldexp(static_cast<T>(x.hi()),32*N) + unsigned_to_float<T,N-1>(x.lo());
+            return std::ldexp(static_cast<T>(x.hi()),static_cast<int>(sizeof(full_uint)*8*(N-1))) + unsigned_to_float<T,N-1>(x.lo());
         } else {
             return static_cast<T>(x.hi());
         }
-- 
2.43.0


From 843d9b5dd888dc0b6187dd929a4b0d51ff43e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:44 +0000
Subject: [PATCH 12/14] fix: conversion of a large integer to a wider built-in
 integer

The shift was given in bytes instead of bits, and the sign of a signed
value was not extended.
---
 include/poly_ops/large_ints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index ca9f889..2577d63 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -283,9 +283,9 @@ namespace detail {
     template<integral T,typename U> T cast(const U &x) noexcept {
         constexpr unsigned int N = int_count<false,U>;
         if constexpr(N == 1) {
-            return static_cast<T>(compi_hi<1>(x));
+            return static_cast<T>(compi_hi<1,signed_type<U>>(x));
         } else if constexpr(int_count<false,T> >= N) {
-            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int))) | cast<T>(compi_lo<N>(x));
+            return (static_cast<T>(compi_hi<N,signed_type<U>>(x)) << ((N-1) * sizeof(full_int) * 8)) | cast<T>(compi_lo<N>(x));
         } else {
             return cast<T>(compi_lo<N>(x));
         }
-- 
2.43.0


From 2abe2a950d1ffb65485779f7dac5f60e6fc83a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:45 +0000
Subject: [PATCH 13/14] fix: product of a large and a one-word integer is
 returned

mul() of unsigned operands of which only one has several words ended
without a return statement.
---
 include/poly_ops/large_ints.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 2577d63..49c390c 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1092,6 +1092,8 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
             if constexpr(Signed) {
                 offset_add<Na+1,1>(r,umulnx1<Na-1>(compi_lo<Na>(a),compi_hi<Nb+1>(b)));
                 return compound_int<Na+1>{r};
+            } else {
+                return r;
             }
         } else {
             compound_uint<Na+Nb> a_tmp{a};
-- 
2.43.0


From 357568ae853a6403e7137d74d5d9411ff96f8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:45 +0000
Subject: [PATCH 14/14] fix: products of single words narrower than the widest
 type

The braced result of mul1x1 had no type to initialise, the int16_t branch
of bltin_sized_int was not part of the if-chain, and an unsigned product
was computed in a signed type it can overflow.
---
 include/poly_ops/large_ints.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 49c390c..5db17fa 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -193,7 +193,7 @@ namespace detail {
     template<typename T> struct type_val { using type=T; };
     template<std::size_t Size> auto _bltin_sized_int() noexcept {
         if constexpr(Size <= 1) { return type_val<std::int8_t>{}; }
-        if constexpr(Size == 2) { return type_val<std::int16_t>{}; }
+        else if constexpr(Size == 2) { return type_val<std::int16_t>{}; }
         else if constexpr(Size <= 4) { return type_val<std::int32_t>{}; }
         else if constexpr(Size <= 8) { return type_val<std::int64_t>{}; }
         else { return type_val<void>{}; }
@@ -1037,7 +1037,7 @@ namespace detail {
 #endif
         } else {
             auto value = static_cast<std::conditional_t<Signed,std::int64_t,std::uint64_t>>(a) * b;
-            return {static_cast<full_uint>(value >> sizeof(full_int)*8),static_cast<full_uint>(value)};
+            return compound_xint<2,Signed>{static_cast<full_uint>(value >> sizeof(full_int)*8),static_cast<full_uint>(value)};
         }
     }
 
@@ -1078,7 +1078,12 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
     using namespace detail;
 
     if constexpr(small_xints<T> && small_xints<U>) {
-        return static_cast<detail::bltin_sized_int<sizeof(T) + sizeof(U)>>(a) * b;
+        using result_t = detail::bltin_sized_int<sizeof(T) + sizeof(U)>;
+        if constexpr(signed_type<T> || signed_type<U>) {
+            return static_cast<result_t>(a) * b;
+        } else {
+            return static_cast<std::make_unsigned_t<result_t>>(a) * b;
+        }
     } else {
         constexpr bool Signed = signed_type<T> || signed_type<U>;
         constexpr unsigned int Na = int_count<Signed,T>;
-- 
2.43.0

