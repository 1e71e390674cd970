From 3d0b3e05bc17d2e3a90065bff40f5366eb54fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 01/20] fix: exp2 computed e^x instead of 2^x

---
 src/exponential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exponential.cpp b/src/exponential.cpp
index 06a6857..d6a8956 100644
--- a/src/exponential.cpp
+++ b/src/exponential.cpp
@@ -184,7 +184,7 @@ zcm::quat zcm_vectorcall zcm::exp(zcm::quat x) noexcept
 
 float zcm::exp2(float x) noexcept
 {
-    return expf(x);
+    return exp2f(x);
 }
 
 zcm::vec2 zcm::exp2(const zcm::vec2& x) noexcept
-- 
2.43.0


From ba4db8afed2ff51688c19fe45fad968519b8d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 02/20] fix: distance2 of vec3 and vec4 returned the distance,
 not its square

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 5baab6f..832fa39 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -283,12 +283,12 @@ float zcm::distance2(const zcm::vec2 &first, const zcm::vec2 &second) noexcept
 
 float zcm::distance2(const zcm::vec3 &first, const zcm::vec3 &second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 float zcm_vectorcall zcm::distance2(zcm::vec4 first, zcm::vec4 second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 
-- 
2.43.0


From e3763a5f4c1b2223d69760465fc8b1d52f392f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 03/20] fix: length of a negative scalar was negative

---
 src/geometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 832fa39..538d634 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -213,7 +213,7 @@ zcm::vec4 zcm_vectorcall zcm::refract(zcm::vec4 I, zcm::vec4 N, float eta) noexc
 
 float zcm::length(float first) noexcept
 {
-    return first;
+    return abs(first);
 }
 
 float zcm::length(const zcm::vec2& first) noexcept
-- 
2.43.0


From 52d3834aaf9c03c9a88de5cdab308d409953ea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 04/20] fix: decode_octahedral was wrong on the lower
 hemisphere

---
 src/geometric.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 538d634..e8d3938 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -327,8 +327,9 @@ zcm::vec3 zcm::decode_octahedral(zcm::vec2 e) noexcept
 {
     auto v = zcm::vec3(e.x, e.y, 1.0f - abs(e.x) - abs(e.y));
     if (v.z < 0.0f) {
-        v.x = 1.0f - abs(v.y) * signNotZero(v.x);
-        v.y = 1.0f - abs(v.x) * signNotZero(v.y);
+        float x = v.x;
+        v.x = (1.0f - abs(v.y)) * signNotZero(v.x);
+        v.y = (1.0f - abs(x)) * signNotZero(v.y);
     }
     return normalize(v);
 }
-- 
2.43.0


From ce42d59d7e3c7ee76f4e12bfb09331d72db27354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 05/20] fix: roundEven rounded to even integers only

---
 src/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index 17cb888..53420e9 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -353,7 +353,7 @@ zcm::vec4 zcm_vectorcall zcm::round(zcm::vec4 x) noexcept
 
 float zcm::roundEven(float x) noexcept
 {
-    return std::nearbyint(x * 0.5f) * 2.0f;
+    return std::nearbyint(x);
 }
 
 zcm::vec2 zcm::roundEven(const zcm::vec2& x) noexcept
-- 
2.43.0


From bd4b43fe77b1a82cc05538520b8b11019f8afba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 06/20] fix: convertLinearToSRGB applied the inverse of the
 requested gamma

---
 src/color_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 6498b69..7471047 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -13,7 +13,7 @@ zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
 {
 	auto ClampedColor = clamp(colorLinear, vec3{0}, vec3{1});
-	return mix(pow(ClampedColor, vec3(Gamma)) * 1.055f - 0.055f,
+	return mix(pow(ClampedColor, vec3(1.0f / Gamma)) * 1.055f - 0.055f,
 	           ClampedColor * 12.92f,
 	           lessThan(ClampedColor, vec3(0.0031308f)));
 }
-- 
2.43.0


From 03116e32649ba0bafdad36b71cf2a6655a361fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 07/20] fix: mat3(mat2) read a third column the mat2 does not
 have

---
 src/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat3.cpp b/src/mat3.cpp
index 7d5b203..fc84f70 100644
--- a/src/mat3.cpp
+++ b/src/mat3.cpp
@@ -24,7 +24,7 @@ zcm::mat3::mat3(const zcm::mat2 &m2) noexcept
 {
     _columns[0] = vec3(m2[0].x, m2[0].y, 0.0f);
     _columns[1] = vec3(m2[1].x, m2[1].y, 0.0f);
-    _columns[2] = vec3(m2[2].x, m2[2].y, 1.0f);
+    _columns[2] = vec3(0.0f, 0.0f, 1.0f);
 }
 
 zcm::mat3::operator zcm::mat2() const noexcept
-- 
2.43.0


From 60930b9751fce77a5828ba774297ba4b2b9d13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 08/20] fix: hash(mat4) ignored the second and third columns

---
 src/hash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index 4d9c34a..261b888 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -73,7 +73,7 @@ size_t zcm::hash(const zcm::mat3 &m) noexcept
 
 size_t zcm::hash(const zcm::mat4 &m) noexcept
 {
-    return hash(m[0]) ^ hash(m[1]) ^ hash(m[1]) ^ hash(m[3]);
+    return hash(m[0]) ^ hash(m[1]) ^ hash(m[2]) ^ hash(m[3]);
 }
 
 size_t zcm::hash(const zcm::bvec2 &b) noexcept
-- 
2.43.0


From 1a129f6ce28424253f343f3ba9fd5d1f6c351ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 09/20] fix: 0.0f and -0.0f compare equal but had different
 hashes

---
 src/hash.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hash.cpp b/src/hash.cpp
index 261b888..3f9c057 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -17,6 +17,9 @@
 static size_t float_hash(float f) noexcept
 {
     static_assert (sizeof(float) == sizeof(unsigned), "Float and unsigned must have same size!");
+    if (f == 0.0f) {
+        f = 0.0f; // -0.0f compares equal to 0.0f, so it has to have the same hash
+    }
     unsigned ui;
     std::memcpy(&ui, &f, sizeof(float));
     return zcm::hash(ui);
-- 
2.43.0


From 6e16d078335e9a6f0aeff3933eed4c491b0097c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 10/20] fix: two-component operator[] let the out-of-range
 index 2 through its assertion

---
 src/bvec2.cpp | 4 ++--
 src/ivec2.cpp | 4 ++--
 src/vec2.cpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bvec2.cpp b/src/bvec2.cpp
index 27f0619..f353495 100644
--- a/src/bvec2.cpp
+++ b/src/bvec2.cpp
@@ -132,7 +132,7 @@ bool zcm::operator !=(zcm::bvec2 first, zcm::bvec2 second) noexcept
 
 bool& zcm::bvec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
@@ -144,7 +144,7 @@ bool& zcm::bvec2::operator[](unsigned val) noexcept
 
 bool zcm::bvec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
diff --git a/src/ivec2.cpp b/src/ivec2.cpp
index ceeca53..43e4e4a 100644
--- a/src/ivec2.cpp
+++ b/src/ivec2.cpp
@@ -105,13 +105,13 @@ bool zcm::operator>=(zcm::ivec2 first, zcm::ivec2 second) noexcept
 
 int32_t& zcm::ivec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const int32_t& zcm::ivec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
diff --git a/src/vec2.cpp b/src/vec2.cpp
index 4a80148..b8bb5b5 100644
--- a/src/vec2.cpp
+++ b/src/vec2.cpp
@@ -101,13 +101,13 @@ bool zcm::operator!=(zcm::vec2 first, zcm::vec2 second) noexcept
 
 float& zcm::vec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const float& zcm::vec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
-- 
2.43.0


From 8f22ca3afff57cadccc7c765d151f8616180a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:13 +0000
Subject: [PATCH 11/20] fix: inverseTranspose and adjugateTranspose of mat2 did
 not transpose

---
 src/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 0b1ea48..bdb40e7 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -286,8 +286,8 @@ zcm::mat2 zcm::inverseTranspose(const zcm::mat2 &m) noexcept
 
     mat2 Inverse(
         + m[1][1] / Determinant,
-        - m[0][1] / Determinant,
         - m[1][0] / Determinant,
+        - m[0][1] / Determinant,
         + m[0][0] / Determinant);
 
     return Inverse;
@@ -368,8 +368,8 @@ zcm::mat4 zcm::inverseTranspose(const zcm::mat4 &m) noexcept
 zcm::mat2 zcm::adjugateTranspose(const mat2 &m) noexcept
 {
     mat2 Adjugate(+ m[1][1],
-                  - m[0][1],
                   - m[1][0],
+                  - m[0][1],
                   + m[0][0]);
 
     return Adjugate;
-- 
2.43.0


From e1c33107244c0c626b412822db8ac9b1e0e33fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:13 +0000
Subject: [PATCH 12/20] fix: define the declared ivec4 operators % | & ^ >> <<

---
 src/ivec4.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ivec4.cpp b/src/ivec4.cpp
index f8ff2cc..7b29d8a 100644
--- a/src/ivec4.cpp
+++ b/src/ivec4.cpp
@@ -90,12 +90,24 @@ ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, +)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, -)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, *)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, /)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, %)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, |)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, &)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, ^)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, >>)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, <<)
 }
 
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, +=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, -=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, *=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, /=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, %=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, |=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, &=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, ^=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, >>=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, <<=)
 
 zcm::ivec4 zcm::operator -(zcm::ivec4 first) noexcept
 {
-- 
2.43.0


From 6de452233026f17f18a7434c6d05301f4561cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:13 +0000
Subject: [PATCH 13/20] fix: hash.hpp used size_t without including its header

---
 include/zcm/hash.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zcm/hash.hpp b/include/zcm/hash.hpp
index 1ce7d36..9d7a10c 100644
--- a/include/zcm/hash.hpp
+++ b/include/zcm/hash.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <zcm/detail/vectorcall.hpp>
+#include <stddef.h>
 #include <functional>
 #include <zcm/vec4.hpp>
 #include <zcm/quat.hpp>
-- 
2.43.0


From 723302ad09b89be2751298b964b8ef9711302d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 14/20] fix: components of integer vectors could not be
 assigned a scalar

---
 include/zcm/detail/vec2_access.hpp | 2 ++
 include/zcm/detail/vec3_access.hpp | 2 ++
 include/zcm/detail/vec4_access.hpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/zcm/detail/vec2_access.hpp b/include/zcm/detail/vec2_access.hpp
index 9e843e5..acfc067 100644
--- a/include/zcm/detail/vec2_access.hpp
+++ b/include/zcm/detail/vec2_access.hpp
@@ -58,6 +58,8 @@ T format_as(const scalar_accessor_2<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_2i : public scalar_accessor_2<T, index>
 {
+    using scalar_accessor_2<T,index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_2<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec3_access.hpp b/include/zcm/detail/vec3_access.hpp
index e44babd..14d4ba7 100644
--- a/include/zcm/detail/vec3_access.hpp
+++ b/include/zcm/detail/vec3_access.hpp
@@ -58,6 +58,8 @@ T format_as(const scalar_accessor_3<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_3i : public scalar_accessor_3<T, index>
 {
+    using scalar_accessor_3<T,index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_3<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec4_access.hpp b/include/zcm/detail/vec4_access.hpp
index 812b6b1..146e5c8 100644
--- a/include/zcm/detail/vec4_access.hpp
+++ b/include/zcm/detail/vec4_access.hpp
@@ -59,6 +59,8 @@ T format_as(const scalar_accessor_4<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_4i : public scalar_accessor_4<T, index>
 {
+    using scalar_accessor_4<T,index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_4<T,index>::_data[index] %= s;
     }
-- 
2.43.0


From 83f5c90e7b568f9cab012fbc4e6e9cc0cfa3c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 15/20] fix: assigning a named component from the same-named
 one of another vector overwrote the whole vector

---
 include/zcm/detail/vec2_access.hpp | 19 +++++++++++++++++++
 include/zcm/detail/vec3_access.hpp | 19 +++++++++++++++++++
 include/zcm/detail/vec4_access.hpp | 19 +++++++++++++++++++
 include/zcm/ivec2.hpp              |  8 ++++++++
 include/zcm/ivec3.hpp              |  9 +++++++++
 include/zcm/ivec4.hpp              | 10 ++++++++++
 include/zcm/vec2.hpp               |  8 ++++++++
 include/zcm/vec3.hpp               |  9 +++++++++
 include/zcm/vec4.hpp               | 10 ++++++++++
 9 files changed, 111 insertions(+)

diff --git a/include/zcm/detail/vec2_access.hpp b/include/zcm/detail/vec2_access.hpp
index acfc067..dbf5694 100644
--- a/include/zcm/detail/vec2_access.hpp
+++ b/include/zcm/detail/vec2_access.hpp
@@ -13,6 +13,15 @@ struct scalar_accessor_2
 {
     T _data[2];
 
+    scalar_accessor_2() noexcept = default;
+    scalar_accessor_2(const scalar_accessor_2&) noexcept = default;
+
+    // assign the named component only, not the whole vector it is a part of.
+    scalar_accessor_2& operator=(const scalar_accessor_2& other) noexcept {
+        _data[index] = other._data[index];
+        return *this;
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
@@ -131,6 +140,16 @@ struct shuffle_accessor_2
 {
     T _data[2];
 
+    shuffle_accessor_2() noexcept = default;
+    shuffle_accessor_2(const shuffle_accessor_2&) noexcept = default;
+
+    // assign the named components only, not the whole vector they are a part of.
+    shuffle_accessor_2& operator=(const shuffle_accessor_2& other) noexcept {
+        const T dummy[] = { (_data[indices] = other._data[indices])... };
+        (void) dummy;
+        return *this;
+    }
+
     operator V() const noexcept {
         return V{_data[indices]...};
     }
diff --git a/include/zcm/detail/vec3_access.hpp b/include/zcm/detail/vec3_access.hpp
index 14d4ba7..12cecdc 100644
--- a/include/zcm/detail/vec3_access.hpp
+++ b/include/zcm/detail/vec3_access.hpp
@@ -15,6 +15,15 @@ struct scalar_accessor_3
 {
     T _data[3];
 
+    scalar_accessor_3() noexcept = default;
+    scalar_accessor_3(const scalar_accessor_3&) noexcept = default;
+
+    // assign the named component only, not the whole vector it is a part of.
+    scalar_accessor_3& operator=(const scalar_accessor_3& other) noexcept {
+        _data[index] = other._data[index];
+        return *this;
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
@@ -138,6 +147,16 @@ struct shuffle_accessor_3
 {
     T _data[3];
 
+    shuffle_accessor_3() noexcept = default;
+    shuffle_accessor_3(const shuffle_accessor_3&) noexcept = default;
+
+    // assign the named components only, not the whole vector they are a part of.
+    shuffle_accessor_3& operator=(const shuffle_accessor_3& other) noexcept {
+        const T dummy[] = { (_data[indices] = other._data[indices])... };
+        (void) dummy;
+        return *this;
+    }
+
     operator V() const noexcept {
         return V{_data[indices]...};
     }
diff --git a/include/zcm/detail/vec4_access.hpp b/include/zcm/detail/vec4_access.hpp
index 146e5c8..09aca7c 100644
--- a/include/zcm/detail/vec4_access.hpp
+++ b/include/zcm/detail/vec4_access.hpp
@@ -17,6 +17,15 @@ struct scalar_accessor_4
 {
     T _data[4];
 
+    scalar_accessor_4() noexcept = default;
+    scalar_accessor_4(const scalar_accessor_4&) noexcept = default;
+
+    // assign the named component only, not the whole vector it is a part of.
+    scalar_accessor_4& operator=(const scalar_accessor_4& other) noexcept {
+        _data[index] = other._data[index];
+        return *this;
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
@@ -141,6 +150,16 @@ template<typename T, typename V, int... indices>
 struct shuffle_accessor_4
 {
     T _data[4];
+    shuffle_accessor_4() noexcept = default;
+    shuffle_accessor_4(const shuffle_accessor_4&) noexcept = default;
+
+    // assign the named components only, not the whole vector they are a part of.
+    shuffle_accessor_4& operator=(const shuffle_accessor_4& other) noexcept {
+        const T dummy[] = { (_data[indices] = other._data[indices])... };
+        (void) dummy;
+        return *this;
+    }
+
     operator V() const noexcept {
         return V{_data[indices]...};
     }
diff --git a/include/zcm/ivec2.hpp b/include/zcm/ivec2.hpp
index a8c94c7..29fed2d 100644
--- a/include/zcm/ivec2.hpp
+++ b/include/zcm/ivec2.hpp
@@ -16,6 +16,14 @@ namespace zcm
         ivec2(float)   = delete;
         ivec2(double)  = delete;
         ivec2(int32_t x, int32_t y) noexcept;
+        ivec2(const ivec2&) noexcept = default;
+
+        ivec2& operator=(const ivec2& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            return *this;
+        }
 
         int32_t& operator[](unsigned val) noexcept;
         const int32_t& operator[](unsigned val) const noexcept;
diff --git a/include/zcm/ivec3.hpp b/include/zcm/ivec3.hpp
index 9fb1c81..bd28280 100644
--- a/include/zcm/ivec3.hpp
+++ b/include/zcm/ivec3.hpp
@@ -17,6 +17,15 @@ namespace zcm
         ivec3(float)   = delete;
         ivec3(double)  = delete;
         ivec3(int32_t x, int32_t y, int32_t z) noexcept;
+        ivec3(const ivec3&) noexcept = default;
+
+        ivec3& operator=(const ivec3& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            return *this;
+        }
 
         ivec3(ivec2 xy, int32_t z) noexcept;
         ivec3(int32_t x, ivec2 yz) noexcept;
diff --git a/include/zcm/ivec4.hpp b/include/zcm/ivec4.hpp
index feaec88..df7c3b4 100644
--- a/include/zcm/ivec4.hpp
+++ b/include/zcm/ivec4.hpp
@@ -18,6 +18,16 @@ namespace zcm
         ivec4 (float)   = delete;
         ivec4 (double)  = delete;
         ivec4 (int32_t x, int32_t y, int32_t z, int32_t w) noexcept;
+        ivec4(const ivec4&) noexcept = default;
+
+        ivec4& operator=(const ivec4& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            _data[3] = other._data[3];
+            return *this;
+        }
 
         ivec4 (ivec3 xyz, int32_t w) noexcept;
         ivec4 (int32_t x, ivec3 yzw) noexcept;
diff --git a/include/zcm/vec2.hpp b/include/zcm/vec2.hpp
index 533647f..578335c 100644
--- a/include/zcm/vec2.hpp
+++ b/include/zcm/vec2.hpp
@@ -15,6 +15,14 @@ namespace zcm
         vec2(int64_t) = delete;
         vec2(double)  = delete;
         vec2(float x, float y) noexcept;
+        vec2(const vec2&) noexcept = default;
+
+        vec2& operator=(const vec2& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            return *this;
+        }
 
         float& operator[](unsigned val) noexcept;
         const float& operator[](unsigned val) const noexcept;
diff --git a/include/zcm/vec3.hpp b/include/zcm/vec3.hpp
index e3a48ce..fd79bb7 100644
--- a/include/zcm/vec3.hpp
+++ b/include/zcm/vec3.hpp
@@ -16,6 +16,15 @@ namespace zcm
         vec3(int64_t) = delete;
         vec3(double)  = delete;
         vec3(float x, float y, float z) noexcept;
+        vec3(const vec3&) noexcept = default;
+
+        vec3& operator=(const vec3& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            return *this;
+        }
 
         vec3(vec2 xy, float z) noexcept;
         vec3(float x, vec2 yz) noexcept;
diff --git a/include/zcm/vec4.hpp b/include/zcm/vec4.hpp
index eeadc43..8c46322 100644
--- a/include/zcm/vec4.hpp
+++ b/include/zcm/vec4.hpp
@@ -18,6 +18,16 @@ namespace zcm
         vec4 (int64_t) = delete;
         vec4 (double)  = delete;
         vec4 (float x, float y, float z, float w) noexcept;
+        vec4(const vec4&) noexcept = default;
+
+        vec4& operator=(const vec4& other) noexcept
+        {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            _data[3] = other._data[3];
+            return *this;
+        }
 
         vec4 (vec3 xyz, float w) noexcept;
         vec4 (float x, vec3 yzw) noexcept;
-- 
2.43.0


From ba2cd7dea50ae142c08476b6ef983f76d0711b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 16/20] fix: color_space.cpp did not compile with
 ZCM_DISABLE_SWIZZLE

---
 src/color_space.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 7471047..6198cce 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -7,7 +7,7 @@
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 {
-	return {convertLinearToSRGB(ColorLinear.rgb, Gamma), ColorLinear.a};
+	return {convertLinearToSRGB(vec3(ColorLinear.r, ColorLinear.g, ColorLinear.b), Gamma), ColorLinear.a};
 }
 
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
@@ -29,7 +29,7 @@ zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear) noexcept
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 colorLinear) noexcept
 {
-	return {convertLinearToSRGB(colorLinear.rgb), colorLinear.a};
+	return {convertLinearToSRGB(vec3(colorLinear.r, colorLinear.g, colorLinear.b)), colorLinear.a};
 }
 
 
@@ -42,7 +42,7 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB, float Gamma) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB, float Gamma) noexcept
 {
-	return {convertSRGBToLinear(ColorSRGB.rgb, Gamma), ColorSRGB.a};
+	return {convertSRGBToLinear(vec3(ColorSRGB.r, ColorSRGB.g, ColorSRGB.b), Gamma), ColorSRGB.a};
 }
 
 zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
@@ -52,5 +52,5 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB) noexcept
 {
-    return {convertSRGBToLinear(ColorSRGB.rgb, 2.4f), ColorSRGB.a};
+    return {convertSRGBToLinear(vec3(ColorSRGB.r, ColorSRGB.g, ColorSRGB.b), 2.4f), ColorSRGB.a};
 }
-- 
2.43.0


From d7f9be86b5a66eef26e2c24d69e0469c45dd9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:12 +0000
Subject: [PATCH 17/20] fix: combinations.py printed accessors without their
 component type

---
 tools/combinations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/combinations.py b/tools/combinations.py
index a7e1e86..db6b64f 100644
--- a/tools/combinations.py
+++ b/tools/combinations.py
@@ -19,4 +19,4 @@ for permutation in product:
     letters_rgba = "".join("rgba"[index] for index in rev_p)
     letters_stpq = "".join("stpq"[index] for index in rev_p)
 
-    print(f'detail::shuffle_accessor_{comps}<vec{count}, {indices}> {letters_xyzw}, {letters_rgba}, {letters_stpq};')
+    print(f'detail::shuffle_accessor_{comps}<float, vec{count}, {indices}> {letters_xyzw}, {letters_rgba}, {letters_stpq};')
-- 
2.43.0


From d9116005ef9d1415b6cd73a35d5f6d6faa6bce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:12 +0000
Subject: [PATCH 18/20] fix: benchgen reported success when it could not write
 its files

---
 tools/benchgen/utils.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/benchgen/utils.h b/tools/benchgen/utils.h
index 09b923b..0252198 100644
--- a/tools/benchgen/utils.h
+++ b/tools/benchgen/utils.h
@@ -81,11 +81,15 @@ inline std::string generateMainSource(const std::string includes, const std::str
 
 inline void writeToFile(const fs::path& path, const std::string& content)
 {
-    //TODO: add checks
     std::ofstream output(path.string());
 
     output << content << "\n";
 
     output.flush();
     output.close();
+
+    if(!output) {
+        fmt::print("Cannot write file '{}'\n", path.string());
+        std::exit(-1);
+    }
 }
-- 
2.43.0


From 731ae58a49d8879f201e65c55fc9d69cd7246c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 19/20] fix: angle of a quaternion whose scalar part rounds
 above one was NaN

---
 src/quaternion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.cpp b/src/quaternion.cpp
index f8f2014..879286b 100644
--- a/src/quaternion.cpp
+++ b/src/quaternion.cpp
@@ -204,7 +204,8 @@ zcm::vec3 zcm_vectorcall zcm::axis(zcm::quat q) noexcept
 
 float zcm_vectorcall zcm::angle(zcm::quat q) noexcept
 {
-    return acos(q.w) * 2.0f;
+    // the product of unit quaternions can be slightly longer than one
+    return acos(clamp(q.w, -1.0f, 1.0f)) * 2.0f;
 }
 
 zcm::quat zcm::angleAxis(float angle, zcm::vec3 axis) noexcept
-- 
2.43.0


From 552587cb44770eb7d7be1e9ed095ae23ecfdf324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 20/20] fix: pitch and roll came from rounding noise at a yaw
 of 90 degrees

---
 src/quaternion.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.cpp b/src/quaternion.cpp
index 879286b..f021e16 100644
--- a/src/quaternion.cpp
+++ b/src/quaternion.cpp
@@ -16,12 +16,19 @@ zcm::vec3 zcm_vectorcall zcm::eulerAngles(zcm::quat x) noexcept
              roll(x) };
 }
 
+// At a yaw of +-90 degrees pitch and roll turn about the same axis: the arguments of their arc tangents
+// are nothing but rounding noise. Then pitch takes the whole turn and roll is zero.
+static bool gimbal_locked(const zcm::quat& q) noexcept
+{
+    return zcm::abs(2.0f * (q.x * q.z - q.w * q.y)) > (1.0f - 4.0f * std::numeric_limits<float>::epsilon()) * dot(q, q);
+}
+
 float zcm_vectorcall zcm::pitch(zcm::quat q) noexcept
 {
     const float y = 2.0f * (q.y * q.z + q.w * q.x);
     const float x = q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z;
 
-    if(x == 0.0f && y == 0.0f) //avoid atan2(0,0) - handle singularity - Matiis
+    if(gimbal_locked(q)) //avoid atan2(0,0) - handle singularity - Matiis
         return 2.0f * atan(q.x, q.w);
 
     return atan(y, x);
@@ -34,6 +41,9 @@ float zcm_vectorcall zcm::yaw(zcm::quat q) noexcept
 
 float zcm_vectorcall zcm::roll(zcm::quat q) noexcept
 {
+    if(gimbal_locked(q))
+        return 0.0f;
+
     return atan(2.0f * (q.x * q.y + q.w * q.z), q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 }
 
-- 
2.43.0

