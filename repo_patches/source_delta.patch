From 8159a654866c02c5cdbeff213796daa963591356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 01/68] fix: bint128 writes values whose magnitude needs 56
 bits or more so that they read back

---
 datas/base_128.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index 176d946..b5fa3c3 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -54,8 +54,8 @@ struct bint128 {
 
   void Write(BinWritterRef wr) const {
     // there shouldn't be a sign flag for values lower than
-    // -72'057'594'037'927'936
-    bool sign = value < 0 && !(~(value >> 56));
+    // -36'028'797'018'963'968
+    bool sign = value < 0 && !(~(value >> 55));
     uint64 valueCopy = sign ? ~value : value;
     uint8 lastValue = 0;
     size_t lastIndex = 0;
@@ -64,7 +64,7 @@ struct bint128 {
       lastValue = static_cast<uint8>(valueCopy);
       valueCopy >>= 7;
 
-      if (!valueCopy) {
+      if (!valueCopy || lastIndex == 8) {
         break;
       }
 
-- 
2.43.0


From 1e48852cdb7eabe82eacef6fe679320441847158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 02/68] fix: allocator_hybrid hands the linked storage out only
 once

Growing or copying a container linked to external storage got the same
storage again, ran past its end or aliased the original container.
---
 datas/allocator_hybrid.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 4ada4c8..dae137d 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -34,12 +34,14 @@ struct allocator_hybrid_base {
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start,
                           typename C::pointer end) {
-    input = C(start, end, typename C::allocator_type(start));
+    input = start == end
+                ? C()
+                : C(start, end, typename C::allocator_type(start));
   }
 
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start, size_t count) {
-    input = C(start, start + count, typename C::allocator_type(start));
+    LinkStorage(input, start, start + count);
   }
 };
 
@@ -53,6 +55,8 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
   typedef std::true_type propagate_on_container_move_assignment;
 
   pointer buffer;
+  // linked buffer can be handed out only once
+  bool bufferTaken = false;
 
   allocator_hybrid() noexcept : buffer(nullptr) {}
 
@@ -63,18 +67,23 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
 
   allocator_hybrid(const allocator_hybrid<value_type> &input) noexcept {
     buffer = input.buffer;
+    bufferTaken = input.bufferTaken;
   }
 
+  allocator_hybrid &operator=(const allocator_hybrid &) noexcept = default;
+
   _DECLSPEC_ALLOCATOR pointer allocate(size_t count) {
-    if (!buffer)
+    if (!buffer || bufferTaken)
       return static_cast<pointer>(operator new(count * sizeof(value_type)));
-    else
-      return buffer;
+
+    bufferTaken = true;
+    return buffer;
   }
 
   void deallocate(pointer ptr, size_t) {
     if (buffer == ptr) {
       buffer = nullptr;
+      bufferTaken = false;
       return;
     }
 
-- 
2.43.0


From a45d914e1d9dbe42108c553478c7a02e3d31ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 03/68] fix: Blowfish takes key bytes as unsigned

Key bytes of 0x80 and above were sign extended over the rest of the key word.
---
 datas/encrypt/blowfish.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index 63fbbf9..ac40058 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -462,7 +462,7 @@ void BlowfishEncoder::SetKey(es::string_view key) {
   uint64 lastblock = 0;
 
   memcpy(sboxes, BF_SBOXES, BF_NUMSBOXES * 4);
-  auto inKey = key.data();
+  auto inKey = reinterpret_cast<const uint8 *>(key.data());
   auto inSize = key.size();
 
   for (int i = 0; i < BF_NUMPBOXES; i++) {
@@ -550,7 +550,9 @@ void BlowfishEncoder2::DecodeBlock(uint64 &block) const {
   val1 = _val0.d;
 }
 
-void BlowfishEncoder2::SetKey(const char *inKey, int inSize) {
+void BlowfishEncoder2::SetKey(const char *iKey, int inSize) {
+  auto inKey = reinterpret_cast<const uint8 *>(iKey);
+
   if (mode)
     CreateVector();
 
-- 
2.43.0


From b4476c804ac4b7cfc6fa84156794401efd831141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 04/68] fix: string_view searches, copies and parts follow the
 standard they implement

Searches missed matches at the end, ignored the first character of longer
needles, ran out of the view or never ended on empty views; copy returned one
character too many; parts and copies starting at the end were refused.
---
 datas/internal/string_view.inl | 48 +++++++++++++++-------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 1322ba7..4c6f9ec 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -212,9 +212,9 @@ namespace es {
                                            size_type pos )
     const
   {
-    if(pos >= m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
+    if(pos > m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
 
-    const size_type rcount = std::min(m_size - pos,count+1);
+    const size_type rcount = std::min(m_size - pos,count);
     std::copy( m_str + pos, m_str + pos + rcount, dest);
     return rcount;
   }
@@ -227,7 +227,7 @@ namespace es {
   {
     const size_type max_length = pos > m_size ? 0 : m_size - pos;
 
-    return pos < m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
+    return pos <= m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
   }
 
   //--------------------------------------------------------------------------
@@ -294,21 +294,13 @@ namespace es {
   inline typename basic_string_view<CharT, Traits>::size_type
   basic_string_view<CharT, Traits>::find(basic_string_view v,
                                          size_type pos) const {
-    if (v.empty() || v.size() > m_size)
+    if (v.size() > m_size)
       return npos;
 
     const size_type max_index = m_size - v.size();
 
-    for (size_type i = pos; i < max_index; ++i) {
-      size_type j = v.size() - 1;
-
-      if (!j) {
-        j = m_str[i] == v[j] ? 0 : 1;
-      } else {
-        for (;j && v[j] == m_str[i + j]; j--);
-      }
-
-      if (!j)
+    for (size_type i = pos; i <= max_index; ++i) {
+      if (!Traits::compare(m_str + i, v.m_str, v.size()))
         return i;
     }
 
@@ -350,16 +342,12 @@ namespace es {
                                             size_type pos )
     const
   {
+    if( v.size() > m_size ) return npos;
+
     const size_type max_index = m_size - v.size();
 
-    for( size_type i = std::min(max_index-1,pos); i != npos; --i ) {
-      size_type j = 0;
-      for( ; j < v.size(); ++j ) {
-        if( v[j] != m_str[i-j] ) {
-          break;
-        }
-      }
-      if(j==v.size()) return i;
+    for( size_type i = std::min(max_index,pos); i != npos; --i ) {
+      if( !Traits::compare(m_str + i, v.m_str, v.size()) ) return i;
     }
     return npos;
   }
@@ -444,7 +432,9 @@ namespace es {
                                                    size_type pos )
     const
   {
-    for( size_type i = std::min(m_size-1,pos); i >= 0 && i != npos; --i ) {
+    if( empty() ) return npos;
+
+    for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
       for( size_type j = 0; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           return i;
@@ -491,12 +481,13 @@ namespace es {
     const
   {
     for( size_type i = pos; i < m_size; ++i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if( j == v.size() ) return i;
     }
     return npos;
   }
@@ -536,13 +527,16 @@ namespace es {
                                                        size_type pos )
     const
   {
+    if( empty() ) return npos;
+
     for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if( j == v.size() ) return i;
     }
     return npos;
   }
-- 
2.43.0


From ccf9aa6b54eeb76ee5c91b369d582d96161309d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 05/68] fix: whitespace helpers look at a text only while it is
 not empty

---
 datas/supercore.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index abb2ca6..326b52a 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -95,9 +95,8 @@ bool IsEnd(const cnt &container, const iterType &iter) {
 
 template <class sview>
 sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input[0] == ' ' || input[0] == '\t' ||
-          (inclNewLine && input[0] == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input[0] == ' ' || input[0] == '\t' ||
+                            (inclNewLine && input[0] == '\n')))
     input.remove_prefix(1);
 
   return input;
@@ -105,9 +104,8 @@ sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
 
 template <class sview>
 sview SkipEndWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input.back() == ' ' || input.back() == '\t' ||
-          (inclNewLine && input.back() == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input.back() == ' ' || input.back() == '\t' ||
+                            (inclNewLine && input.back() == '\n')))
     input.remove_suffix(1);
 
   return input;
-- 
2.43.0


From 06daef24c7029f0e7e92e807a164a556d824ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 06/68] fix: FileInfo handles dots in folders, empty paths and
 unrelated branches

A dot in a folder name was taken for the extension, empty paths kept or never
set the offsets and placing a path on a branch dropped a separator or failed
when the branch began with the first component.
---
 datas/fileinfo.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 9525952..443b85a 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -30,8 +30,8 @@ public:
 
 private:
   string_type fullPath;
-  size_t endFolder;
-  size_t lastDot;
+  size_t endFolder = 0;
+  size_t lastDot = 0;
 
 public:
   FileInfo(stringref_type input) { Load(input); }
@@ -40,9 +40,6 @@ public:
   void Load(stringref_type input) {
     fullPath = input;
 
-    if (!fullPath.size())
-      return;
-
     for (auto &c : fullPath)
       if (c == '\\')
         c = '/';
@@ -55,7 +52,7 @@ public:
     else
       endFolder = 0;
 
-    if (!lastDot || lastDot == fullPath.npos)
+    if (!lastDot || lastDot == fullPath.npos || lastDot < endFolder)
       lastDot = fullPath.size();
   }
 
@@ -93,12 +90,14 @@ public:
 
   string_type CatchBranch(const stringref_type &path) const {
     explode_type exVec = Explode();
-    const size_t found = path.find(exVec[0]);
+    const size_t found = exVec.empty() || exVec[0].empty() ? path.npos
+                                                           : path.find(exVec[0]);
 
     if (found == path.npos)
       return string_type(path).append(GetFilenameExt());
     else
-      return string_type(path.begin(), found - 1).append(GetFullPath());
+      return string_type(path.begin(), found)
+          .append(fullPath, fullPath[0] == '/' ? 1 : 0, string_type::npos);
   }
 };
 
-- 
2.43.0


From c0e33b20af085e640a33540dda3e58aa9ea2b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 07/68] fix: reduced precision floats convert denormals, small
 numbers, infinities and NaNs to what they denote

---
 datas/float.hpp | 130 ++++++++++++++++--------------------------------
 1 file changed, 43 insertions(+), 87 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index f617ee5..932cc9c 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -28,60 +28,17 @@ public:
   static constexpr size_t EXP_REF =
       (0x3f800000 - ((EXPONENT_MASK_NS >> 1) << 23));
 
+  // 2^n with the spacing of this format's denormals as its own spacing
+  static constexpr size_t DENORM_REF = EXP_REF + ((24 - _mantissa) << 23);
+  // smallest normalized number of this format as single float
+  static constexpr size_t MIN_NORMAL = EXP_REF + (1 << 23);
+
   static float ToFloat(size_t value) {
-    const IVector4A16 vtored(static_cast<int32>(value));
-    const IVector4A16 mskEMSM(vtored & IVector4A16(EXPONENT_MASK, MANTISSA_MASK,
-                                                   SIGN_MASK, MANTISSA_MASK));
-    const IVector4A16 shEMS(mskEMSM * IVector4A16(1 << (23 - _mantissa),
-                                                  1 << (23 - _mantissa),
-                                                  1 << (32 - TOTAL_SIZE), 1));
-    const size_t exponentI = mskEMSM.X;
-    IVector4A16 finResult(shEMS);
-
-    if (exponentI) {
-      if (exponentI == EXPONENT_MASK) {
-        finResult *= IVector4A16(0, 1, 1, 0);
-        finResult += IVector4A16(0x7f800000, 0, 0, 0);
-      } else {
-        finResult *= IVector4A16(1, 1, 1, 0);
-        finResult += IVector4A16(EXP_REF, 0, 0, 0);
-      }
-    } else {
-      finResult *= IVector4A16(0, 0, 1, 1);
-      finResult += IVector4A16(0x3f000000, 0, 0, 0);
-    }
-
-    const size_t result = _mm_extract_epi32(
-        _mm_hadd_epi32(_mm_hadd_epi32(finResult._data, finResult._data),
-                       finResult._data),
-        0);
-    const float resultFl = reinterpret_cast<const float &>(result);
-
-    return exponentI ? resultFl : resultFl - 0.5f;
+    return ToVector4(IVector4A16(static_cast<int32>(value))).X;
   }
 
   static size_t FromFloat(float input) {
-    const size_t cvted = reinterpret_cast<uint32 &>(input);
-    const float catchDenormal = input + 0.5f;
-    const size_t cvtedDenorm = reinterpret_cast<const uint32 &>(catchDenormal);
-    const size_t mskExp = cvted & 0x7f800000;
-    const bool isSubNorm = (cvtedDenorm & 0x3f000000) == 0x3f000000;
-
-    size_t result =
-        (isSubNorm ? cvtedDenorm : (cvted >> (23 - _mantissa))) & MANTISSA_MASK;
-
-    if (_sign && cvted & 0x80000000) {
-      result |= SIGN_MASK;
-    }
-
-    if (mskExp == 0x7f800000) {
-      result |= EXPONENT_MASK;
-    } else if (!isSubNorm) {
-      const size_t unRef = mskExp - EXP_REF;
-      result |= (unRef >> (23 - _mantissa)) & EXPONENT_MASK;
-    }
-
-    return result;
+    return static_cast<uint32>(FromVector4(Vector4A16(input)).X);
   }
 
   static const Vector4A16 _to_ps(IVector4A16 input) {
@@ -94,39 +51,34 @@ public:
 
   static IVector4A16 FromVector4(Vector4A16 value) {
     const IVector4A16 cvted = _to_se(value);
-    const IVector4A16 shtSign(((cvted & 0x80000000) >> (32 - TOTAL_SIZE)) &
-                              SIGN_MASK);
-
-    const IVector4A16 mskExp(cvted & 0x7f800000);
-    const IVector4A16 shtMant(cvted >> (23 - _mantissa));
-
-    value += 0.5f;
-    const IVector4A16 cvtedDenorm = _to_se(value);
-    const IVector4A16 mskExpDenorm(cvtedDenorm & 0x7f800000);
+    const IVector4A16 absolute(cvted & 0x7fffffff);
+    const IVector4A16 shtSign((cvted >> (32 - TOTAL_SIZE)) & SIGN_MASK);
 
+    const IVector4A16 denormRef(DENORM_REF);
+    const IVector4A16 denorm(
+        _to_se(_to_ps(absolute) + _to_ps(denormRef)) - denormRef);
     const IVector4A16 denormMask(
-        _mm_cmpeq_epi32(mskExpDenorm._data, IVector4A16(0x3f000000)._data));
+        _mm_cmplt_epi32(absolute._data, IVector4A16(MIN_NORMAL)._data));
 
-    const Vector4A16 blendMant(_mm_blendv_ps(_to_ps(shtMant)._data,
-                                             _to_ps(cvtedDenorm)._data,
-                                             _to_ps(denormMask)._data));
-    const IVector4A16 maskedMant(_to_se(blendMant) & MANTISSA_MASK);
+    // truncated mantissa, everything too big becomes infinity
+    const IVector4A16 normal(
+        _mm_min_epi32(((absolute - EXP_REF) >> (23 - _mantissa))._data,
+                      IVector4A16(EXPONENT_MASK)._data));
 
     const IVector4A16 nanMask(
-        _mm_cmpeq_epi32(mskExp._data, IVector4A16(0x7f800000)._data));
-
-    const IVector4A16 unRef(((mskExp - EXP_REF) >> (23 - _mantissa)) &
-                            EXPONENT_MASK);
-
-    const Vector4A16 blendExp0(_mm_blendv_ps(_to_ps(unRef)._data,
-                                             _to_ps(EXPONENT_MASK)._data,
-                                             _to_ps(nanMask)._data));
-
-    const Vector4A16 blendExp1(_mm_blendv_ps(blendExp0._data,
-                                            Vector4A16()._data,
-                                             _to_ps(denormMask)._data));
-
-    return _to_se(blendExp1) | maskedMant | shtSign;
+        _mm_cmpgt_epi32(absolute._data, IVector4A16(0x7f800000)._data));
+    const IVector4A16 nanMant((absolute >> (23 - _mantissa)) & MANTISSA_MASK);
+    // nan must not lose its last mantissa bit
+    const IVector4A16 nanBit(
+        _mm_cmpeq_epi32(nanMant._data, IVector4A16()._data));
+    const IVector4A16 nan((nanMant | (nanBit & 1)) | EXPONENT_MASK);
+
+    const IVector4A16 finite(
+        _mm_blendv_epi8(normal._data, denorm._data, denormMask._data));
+
+    return IVector4A16(
+               _mm_blendv_epi8(finite._data, nan._data, nanMask._data)) |
+           shtSign;
   }
 
   static Vector4A16 ToVector4(IVector4A16 value) {
@@ -141,15 +93,17 @@ public:
     const IVector4A16 nzResult(((exponentI << (23 - _mantissa)) + EXP_REF) |
                                mantissa);
 
-    const auto imNANNZ = _mm_blendv_ps(_to_ps(nzResult)._data,
-                                       _to_ps(IVector4A16(0x7f800000))._data,
-                                       _to_ps(exponentMask)._data);
+    const IVector4A16 nanResult(mantissa | 0x7f800000);
+    const auto imNANNZ =
+        _mm_blendv_ps(_to_ps(nzResult)._data, _to_ps(nanResult)._data,
+                      _to_ps(exponentMask)._data);
 
     const IVector4A16 denormMask(
         _mm_cmpeq_epi32(exponentI._data, IVector4A16()._data));
 
-    const IVector4A16 denormResult0((value & MANTISSA_MASK) | 0x3f000000);
-    const Vector4A16 denormResult1(_to_ps(denormResult0) - 0.5f);
+    const IVector4A16 denormRef(DENORM_REF);
+    const IVector4A16 denormResult0((value & MANTISSA_MASK) | denormRef);
+    const Vector4A16 denormResult1(_to_ps(denormResult0) - _to_ps(denormRef));
 
     const IVector4A16 finalResult(_to_se(
         _mm_blendv_ps(imNANNZ, denormResult1._data, _to_ps(denormMask)._data)));
@@ -162,12 +116,14 @@ typedef esFloat<10, 5, true> float16;
 
 struct VectorR11G11B10_UFLOAT {
   uint32 data;
-  typedef esFloat<11, 5, false> codec_type;
+  typedef esFloat<6, 5, false> codec_type;
 
   operator Vector4A16() const {
-    const IVector4A16 input0(IVector4A16(data) *
-                             IVector4A16(1 << 21, 1 << 10, 1, 0));
-    const IVector4A16 input1(input0 >> 21);
+    const UIVector4A16 input0(UIVector4A16(data) *
+                              UIVector4A16(1 << 21, 1 << 10, 1, 0));
+    // last component is one bit shorter
+    const UIVector4A16 input1((input0 >> 21) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(input1);
   }
-- 
2.43.0


From 4b04acc9bd46902e76d00cb63d95fc558920d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 08/68] fix: JenkinsHash3 includes the last block of inputs
 that are multiples of 12 bytes

---
 datas/jenkinshash3.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datas/jenkinshash3.hpp b/datas/jenkinshash3.hpp
index 9cfd7c0..66fd3be 100644
--- a/datas/jenkinshash3.hpp
+++ b/datas/jenkinshash3.hpp
@@ -110,7 +110,11 @@ constexpr uint32 JenkinsHash3_(es::string_view input, uint32 seed = 0) {
     cTrip.Mix();
   }
 
-  size_t lastKeys = input.size() == 12 ? 12 : input.size() % 12;
+  // last block is never mixed, even when it's a whole one
+  size_t lastKeys = input.size() % 12;
+  if (!lastKeys && input.size()) {
+    lastKeys = 12;
+  }
   JenTriplet_ lastTrip;
 
   if (lastKeys > 8) {
-- 
2.43.0


From 549c580d34f40e406bdad3ba4411068642ce1dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 09/68] fix: JenHash orders as the value it holds

---
 datas/jenkinshash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/jenkinshash.hpp b/datas/jenkinshash.hpp
index d37ffdf..8c20fb8 100644
--- a/datas/jenkinshash.hpp
+++ b/datas/jenkinshash.hpp
@@ -67,8 +67,8 @@ template <typename I> struct JenHash_t {
   constexpr bool operator!=(uint32 o) const { return o != value_; }
   constexpr friend bool operator!=(uint32 o, JenHash_t h) { return h != o; }
 
-  constexpr bool operator<(JenHash_t o) const { return o.value_ < value_; }
-  constexpr bool operator>(JenHash_t o) const { return o.value_ > value_; }
+  constexpr bool operator<(JenHash_t o) const { return value_ < o.value_; }
+  constexpr bool operator>(JenHash_t o) const { return value_ > o.value_; }
 
 private:
   uint32 value_;
-- 
2.43.0


From 2b9db21a48efade637e1added447713b21eda60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 10/68] fix: Morton addressing keeps tall and small textures
 inside of their bounds

---
 formats/addr_ps3.hpp | 66 ++++++++++----------------------------------
 1 file changed, 15 insertions(+), 51 deletions(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index a997629..c24ae7f 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -22,19 +22,17 @@
 struct MortonSettings {
   size_t width;
   size_t height;
-  size_t xmask[10]{};
-  size_t ymask[10]{};
+  // coordinate bits that are interleaved
+  size_t minBits;
+  // coordinate bits of the longer side that follow
+  size_t xmask{};
+  size_t ymask{};
 
   MortonSettings(size_t width_, size_t height_)
       : width(width_), height(height_) {
     const size_t bitOffsetW = log2(width);
     const size_t bitOffsetH = log2(height);
-    const size_t minBits = bitOffsetW > bitOffsetH ? bitOffsetH : bitOffsetW;
-
-    for (size_t b = 4; b < minBits; b++) {
-      xmask[b - 4] = size_t(1) << b;
-      ymask[b - 4] = size_t(1) << b;
-    }
+    minBits = bitOffsetW > bitOffsetH ? bitOffsetH : bitOffsetW;
 
     if (bitOffsetW != bitOffsetH) {
       const size_t maskW = width - 1;
@@ -42,56 +40,22 @@ struct MortonSettings {
       const size_t mask = maskH ^ maskW;
 
       if (bitOffsetW > bitOffsetH) {
-        xmask[bitOffsetH - 4] = mask;
+        xmask = mask;
       } else {
-        ymask[bitOffsetW - 4] = mask;
+        ymask = mask;
       }
     }
   }
 };
 
-size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
-  const size_t x0 = x & 1;
-  const size_t x1 = (x & 2) << 1;
-  const size_t x2 = (x & 4) << 2;
-  const size_t x3 = (x & 8) << 3;
-  const size_t x4 = (x & settings.xmask[0]) << 4;
-  const size_t x5 = (x & settings.xmask[1]) << 5;
-  const size_t x6 = (x & settings.xmask[2]) << 6;
-  const size_t x7 = (x & settings.xmask[3]) << 7;
-
-  const size_t y0 = (y & 1) << 1;
-  const size_t y1 = (y & 2) << 2;
-  const size_t y2 = (y & 4) << 3;
-  const size_t y3 = (y & 8) << 4;
-  const size_t y4 = (y & settings.ymask[0]) << 5;
-  const size_t y5 = (y & settings.ymask[1]) << 6;
-  const size_t y6 = (y & settings.ymask[2]) << 7;
-  const size_t y7 = (y & settings.ymask[3]) << 8;
-
-  size_t retval = x0 | x1 | x2 | x3 | x4 | x5 | x6 | x7 | y0 | y1 | y2 | y3 |
-                  y4 | y5 | y6 | y7;
+inline size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
+  size_t retval = ((x & settings.xmask) | (y & settings.ymask))
+                  << settings.minBits;
 
-  if (settings.xmask[4] || settings.ymask[4]) {
-    const size_t x8 = (x & settings.xmask[4]) << 8;
-    const size_t x9 = (x & settings.xmask[5]) << 9;
-    const size_t x10 = (x & settings.xmask[6]) << 10;
-
-    const size_t y8 = (y & settings.ymask[4]) << 9;
-    const size_t y9 = (y & settings.ymask[5]) << 10;
-    const size_t y10 = (y & settings.ymask[6]) << 11;
-    retval |= x8 | x9 | x10 | y8 | y9 | y10;
-
-    if (settings.xmask[7] || settings.ymask[7]) {
-      const size_t x11 = (x & settings.xmask[7]) << 11;
-      const size_t x12 = (x & settings.xmask[8]) << 12;
-      const size_t x13 = (x & settings.xmask[9]) << 13;
-
-      const size_t y11 = (y & settings.ymask[7]) << 12;
-      const size_t y12 = (y & settings.ymask[8]) << 13;
-      const size_t y13 = (y & settings.ymask[9]) << 14;
-      retval |= x11 | x12 | x13 | y11 | y12 | y13;
-    }
+  for (size_t b = 0; b < settings.minBits; b++) {
+    const size_t bit = size_t(1) << b;
+    retval |= (x & bit) << b;
+    retval |= (y & bit) << (b + 1);
   }
 
   return retval;
-- 
2.43.0


From d57078281f2eb25d07b4e72dff5d80a79985b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 11/68] fix: InvalidHeaderError shows the whole magic number
 and reads nothing behind it

---
 datas/except.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/datas/except.hpp b/datas/except.hpp
index f2d5ce6..f4e1547 100644
--- a/datas/except.hpp
+++ b/datas/except.hpp
@@ -46,12 +46,16 @@ class InvalidHeaderError : public std::runtime_error {
 public:
   static std::string DecompileFourCC(size_t magic, size_t size) {
     const char *rMagic = reinterpret_cast<const char *>(&magic);
-    const size_t capSize =
-        std::min(size, es::string_view::traits_type::length(rMagic));
+    size_t capSize = std::min(size, sizeof(magic));
+
+    while (capSize && !rMagic[capSize - 1]) {
+      capSize--;
+    }
+
     bool isAlNum = true;
 
     for (size_t c = 0; c < capSize; c++) {
-      if (!isalnum(rMagic[c])) {
+      if (!isalnum(static_cast<unsigned char>(rMagic[c]))) {
         isAlNum = false;
         break;
       }
-- 
2.43.0


From fc7ba7794cd7590299633dd346eb6ae4d9fc37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 12/68] fix: uni errors keep their type and can be caught as
 standard exceptions

---
 uni/internal/exception.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uni/internal/exception.hpp b/uni/internal/exception.hpp
index 914921d..66f1923 100644
--- a/uni/internal/exception.hpp
+++ b/uni/internal/exception.hpp
@@ -20,11 +20,12 @@
 
 namespace _uni_ {
 
+// throws here, so that the exception keeps its type
 inline std::exception ThrowVoidCall(bool logical) {
   if (logical) {
-    return std::logic_error("Unhandled call!");
+    throw std::logic_error("Unhandled call!");
   } else {
-    return std::runtime_error("Unsupported call!");
+    throw std::runtime_error("Unsupported call!");
   }
 }
 template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
@@ -33,7 +34,7 @@ template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
 } // namespace _uni_
 
 namespace uni {
-class ModifyError : std::runtime_error {
+class ModifyError : public std::runtime_error {
   using parent = std::runtime_error;
 
 public:
-- 
2.43.0


From 1775d4cf832a3fa3278e60993e078a2562e44eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 13/68] fix: widen UTF-8 to code points where wchar_t holds
 them

---
 datas/unicode.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/unicode.hpp b/datas/unicode.hpp
index c7d6fac..09717cb 100644
--- a/datas/unicode.hpp
+++ b/datas/unicode.hpp
@@ -20,6 +20,7 @@
 #include <codecvt>
 #include <locale>
 #include <string>
+#include <type_traits>
 
 #if _MSC_VER >= 1900 
 #define _ES_UTF16 int16
@@ -68,6 +69,10 @@ template <typename _Ty> struct _utf8cvt<_Ty, 4> {
 
 template <typename _Ty> using utf8cvt = _utf8cvt<_Ty, sizeof(_Ty)>;
 
+using widecvt = std::conditional<sizeof(wchar_t) == 4,
+                                 std::codecvt_utf8<wchar_t>,
+                                 std::codecvt_utf8_utf16<wchar_t>>::type;
+
 } // namespace _es
 
 namespace es {
@@ -80,12 +85,12 @@ template <class C> std::string ToUTF8(const std::basic_string<C> &input) {
 }
 
 inline std::wstring ToUTF1632(const char *input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::widecvt> converter;
   return converter.from_bytes(input);
 }
 
 inline std::wstring ToUTF1632(const std::string &input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::widecvt> converter;
   return converter.from_bytes(input);
 }
 }; // namespace es
-- 
2.43.0


From f0043c5b500ae459a8fde33307f15641709ada39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 14/68] fix: only the folder given to Scan is stripped of a
 closing quote, not every folder below

---
 datas/directory_scanner.cpp | 8 ++++++--
 datas/directory_scanner.hpp | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 5b41e83..1d8d57a 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -50,6 +50,10 @@ void DirectoryScanner::Scan(std::string dir) {
     }
   }
 
+  ScanFolder(std::move(dir));
+}
+
+void DirectoryScanner::ScanFolder(std::string dir) {
 #if defined(__GNUC__) || defined(__GNUG__)
   dir.push_back('.');
   
@@ -72,7 +76,7 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile += miniFile;
 
     if (cFile->d_type == DT_DIR) {
-      Scan(subFile);
+      ScanFolder(subFile + '/');
     } else if (IsFilteredFile(miniFile)) {
       files.push_back(subFile);
     }
@@ -103,7 +107,7 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile += cFileName;
 
     if ((foundData.dwFileAttributes & FILE_ATTRIBUTE_DIRECTORY) != 0) {
-      Scan(subFile);
+      ScanFolder(subFile + '/');
     } else if (IsFilteredFile(cFileName)) {
       files.push_back(subFile);
     }
diff --git a/datas/directory_scanner.hpp b/datas/directory_scanner.hpp
index 6e8faa9..a8421ed 100644
--- a/datas/directory_scanner.hpp
+++ b/datas/directory_scanner.hpp
@@ -22,6 +22,7 @@
 
 class DirectoryScanner {
   bool IsFilteredFile(const std::string &fileName);
+  void ScanFolder(std::string dir);
 
 public:
   typedef std::vector<std::string> storage_type;
-- 
2.43.0


From 722784934133047174d78de8964c9174a89daf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 15/68] fix: directory scanner descends where the file system
 does not tell entry types

---
 datas/directory_scanner.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 1d8d57a..e987ddc 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -20,6 +20,7 @@
 
 #if defined(__GNUC__) || defined(__GNUG__)
 #include <dirent.h>
+#include <sys/stat.h>
 #else
 #include <windows.h>
 #endif
@@ -75,7 +76,15 @@ void DirectoryScanner::ScanFolder(std::string dir) {
     subFile.pop_back();
     subFile += miniFile;
 
-    if (cFile->d_type == DT_DIR) {
+    bool isFolder = cFile->d_type == DT_DIR;
+
+    // Not every file system tells the type
+    if (cFile->d_type == DT_UNKNOWN) {
+      struct stat fileStat;
+      isFolder = !lstat(subFile.data(), &fileStat) && S_ISDIR(fileStat.st_mode);
+    }
+
+    if (isFolder) {
       ScanFolder(subFile + '/');
     } else if (IsFilteredFile(miniFile)) {
       files.push_back(subFile);
-- 
2.43.0


From c79cefaa081505ecd7ee4f6b70c996c196d1dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 16/68] fix: FileType no longer takes sockets and block devices
 for folders

---
 datas/internal/stat_ix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/stat_ix.inl b/datas/internal/stat_ix.inl
index d762f3a..870a8be 100644
--- a/datas/internal/stat_ix.inl
+++ b/datas/internal/stat_ix.inl
@@ -20,9 +20,9 @@
 FileType_e FileType(const std::string &path) {
   struct stat s;
   if (!stat(path.data(), &s)) {
-    if (s.st_mode & S_IFDIR) {
+    if (S_ISDIR(s.st_mode)) {
       return FileType_e::Directory;
-    } else if (s.st_mode & S_IFREG) {
+    } else if (S_ISREG(s.st_mode)) {
       return FileType_e::File;
     } else {
       return FileType_e::Invalid;
-- 
2.43.0


From 539a546e5975e3052c39aaa86689fc01a3b6a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 17/68] fix: printed messages are terminated however they are
 flushed, a refused insertion takes nothing else with it

---
 datas/master_printer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index 0a06803..51d4f32 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -59,6 +59,8 @@ void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
 }
 
 void MasterPrinterThread::FlushAll() {
+  // A refused insertion must not affect what comes next
+  _masterstream.clear();
   const size_t buffsize = static_cast<size_t>(_masterstream.tellp()) + 1;
 
   _masterstream.seekp(0);
@@ -66,6 +68,7 @@ void MasterPrinterThread::FlushAll() {
   char *tempOut = static_cast<char *>(malloc(buffsize));
 
   _masterstream.read(tempOut, buffsize);
+  tempOut[buffsize - 1] = 0;
 
   if (buffsize > static_cast<size_t>(maximumStreamSize))
     _masterstream.str("");
@@ -110,6 +113,8 @@ void MasterPrinterThread::FlushAll() {
 }
 
 void MasterPrinterThread::operator>>(int endWay) {
+  _masterstream.clear();
+
   if (endWay)
     _masterstream << std::endl;
 
-- 
2.43.0


From c2e77a6d7ba8b9e36e5bfa901eec415d41fca9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 18/68] fix: RunThreadedQueue ends where the number of hardware
 threads is not known

---
 datas/multi_thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/multi_thread.hpp b/datas/multi_thread.hpp
index b31be1a..f8dcfc4 100644
--- a/datas/multi_thread.hpp
+++ b/datas/multi_thread.hpp
@@ -23,7 +23,9 @@
 #include <thread>
 
 template <class lmBody> void RunThreadedQueue(size_t numTasks, lmBody &&fc) {
-  const size_t numHWThreads = std::thread::hardware_concurrency();
+  // The number of hardware threads is 0, when it cannot be told
+  const size_t numHWThreads =
+      std::max(std::thread::hardware_concurrency(), 1u);
   const size_t numThreads = std::min(numHWThreads, numTasks);
   size_t curTask = 0;
   using future_type = std::future<decltype(fc(size_t()))>;
-- 
2.43.0


From e90e9745696e341ded09d1f33a0db2be809d12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 19/68] fix: scalar operators and or-assignment of 2, 3 and 4
 component vectors

Scalar forms of V4ScalarType assigned to a const object, scalar shifts
did not accept element types other than int32, and |= computed &.
---
 datas/vectors.hpp | 50 ++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index f4cb016..9122e40 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -69,8 +69,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector2<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector2<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -197,8 +201,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -326,29 +334,17 @@ public:
     return {X << input.X, Y << input.Y, Z << input.Z, W << input.W};
   }
 
-  vector operator+(value_type input) const {
-    return *this = *this + vector(input);
-  }
-  vector operator-(value_type input) const {
-    return *this = *this - vector(input);
-  }
-  vector operator*(value_type input) const {
-    return *this = *this * vector(input);
-  }
-  vector operator/(value_type input) const {
-    return *this = *this / vector(input);
-  }
-  vector operator&(value_type input) const {
-    return *this = *this & vector(input);
-  }
-  vector operator|(value_type input) const {
-    return *this = *this | vector(input);
-  }
+  vector operator+(value_type input) const { return *this + vector(input); }
+  vector operator-(value_type input) const { return *this - vector(input); }
+  vector operator*(value_type input) const { return *this * vector(input); }
+  vector operator/(value_type input) const { return *this / vector(input); }
+  vector operator&(value_type input) const { return *this & vector(input); }
+  vector operator|(value_type input) const { return *this | vector(input); }
   vector operator>>(shift_value input) const {
-    return *this = *this >> vector(input);
+    return *this >> V4ScalarType<shift_value>(input);
   }
   vector operator<<(shift_value input) const {
-    return *this = *this << vector(input);
+    return *this << V4ScalarType<shift_value>(input);
   }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
@@ -356,7 +352,7 @@ public:
   vec_ref operator*=(vec_cref input) { return *this = *this * input; }
   vec_ref operator/=(vec_cref input) { return *this = *this / input; }
   vec_ref operator&=(vec_cref input) { return *this = *this & input; }
-  vec_ref operator|=(vec_cref input) { return *this = *this & input; }
+  vec_ref operator|=(vec_cref input) { return *this = *this | input; }
   vec_ref operator>>=(shift_vec input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_vec input) { return *this = *this << input; }
 
@@ -365,11 +361,11 @@ public:
   vec_ref operator*=(value_type input) { return *this = *this * input; }
   vec_ref operator/=(value_type input) { return *this = *this / input; }
   vec_ref operator&=(value_type input) { return *this = *this & input; }
-  vec_ref operator|=(value_type input) { return *this = *this & input; }
+  vec_ref operator|=(value_type input) { return *this = *this | input; }
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-  vector operator-() const { return *this * -1.f; }
+  vector operator-() const { return *this * -1; }
 
   bool IsSymetrical() const { return (X == Y) && (X == Z) && (Z == W); }
 
-- 
2.43.0


From edc2f7946363d1106aa4b0e660b5ac5c053844e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 20/68] fix: lane wise <= and >= and W in IsSymetrical of
 V4SimdFltType

---
 datas/vectors_simd.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index 7b2e079..59c507e 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -157,10 +157,12 @@ public:
     return _mm_movemask_ps(_mm_cmpgt_ps(_data, input._data)) == 0xF;
   }
   bool operator<=(vec_cref input) const {
-    return *this < input || *this == input;
+    const store_type limit = _mm_add_ps(input._data, GetEpsilon());
+    return _mm_movemask_ps(_mm_cmple_ps(_data, limit)) == 0xF;
   }
   bool operator>=(vec_cref input) const {
-    return *this > input || *this == input;
+    const store_type limit = _mm_sub_ps(input._data, GetEpsilon());
+    return _mm_movemask_ps(_mm_cmpge_ps(_data, limit)) == 0xF;
   }
 
   bool operator<(value_type input) const { return *this < vector(input); }
@@ -170,9 +172,8 @@ public:
 
   // Check if X == Y == Z == W
   bool IsSymetrical() const {
-    const store_type temp =
-        _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(3, 1, 0, 2));
-    return Compare(_mm_hsub_ps(_data, _data), _mm_hsub_ps(temp, temp));
+    return Compare(_mm_shuffle_ps(_data, _data, _MM_SHUFFLE(0, 0, 0, 0)),
+                   _data);
   }
 
   // Return -1 if [X | Y | Z | W] < 0
-- 
2.43.0


From dbc7caa7c89e06c47fb856b1e9c0a13b4c2c5c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 21/68] fix: numbers too small for a reflected float keep their
 sign

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1ef44b2..5250a5d 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -74,7 +74,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
 
     double fVal = atof(input.c_str());
 
-    if (fVal > 0)
+    if (!std::signbit(fVal)) // too small numbers are zero here
       output = fVal > 1.0 ? fMax : fMin;
     else
       output = fVal < -1.0 ? -fMax : -fMin;
-- 
2.43.0


From 4dad062d7c6415ba75fd9041a8bf553ed71970bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 22/68] fix: reflected elements out of range are refused
 instead of written behind the member

---
 datas/reflector.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 5250a5d..390ed59 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -505,6 +505,12 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
 Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   es::string_view value,
                                                   size_t subID) {
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Element " << subID << " is out of range, "
+                                      << type.numItems << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr += type.offset + type.subSize * subID;
@@ -543,8 +549,8 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
     _DecomposedVectorHash dec = {type.typeHash};
     type.subSize = dec.size;
 
-    if (element >= dec.size) {
-      printerror("[Reflector] Too many vector elements, " << dec.size
+    if (element >= dec.numItems || subID >= type.numItems) {
+      printerror("[Reflector] Too many vector elements, " << dec.numItems
                                                           << " expected.");
       return ErrorType::OutOfRange;
     }
-- 
2.43.0


From 302187fd5973d792318ef41662b73f908817df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 23/68] fix: a reflected flag can be set by its index as
 SetReflectedValue accepts it

---
 datas/reflector.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 390ed59..b7fdd35 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -505,6 +505,26 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
 Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   es::string_view value,
                                                   size_t subID) {
+  if (type.type == REFType::EnumFlags) {
+    if (subID >= type.subSize * 8U) {
+      printerror("[Reflector] Flag " << subID << " is out of range, "
+                                     << type.subSize * 8 << " expected.");
+      return ErrorType::OutOfRange;
+    }
+
+    bool flag = false;
+    const auto errType = SetBoolean(es::SkipStartWhitespace(value), flag);
+
+    if (errType == ErrorType::None) {
+      char &part = *(static_cast<char *>(GetReflectedInstance().instance) +
+                     type.offset + subID / 8);
+      const char mask = static_cast<char>(1 << (subID % 8));
+      part = flag ? part | mask : part & ~mask;
+    }
+
+    return errType;
+  }
+
   if (subID >= type.numItems) {
     printerror("[Reflector] Element " << subID << " is out of range, "
                                       << type.numItems << " expected.");
-- 
2.43.0


From 6982a8b23cc77f3c77aaa684441c09c8afae46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 24/68] fix: typed setters of reflected members reach the first
 element of arrays

---
 datas/reflector.cpp | 81 +++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 39 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index b7fdd35..2446cd3 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -588,22 +588,23 @@ Reflector::SetReflectedValueInt(reflType reflValue, int64 value, size_t subID) {
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
       return Reflector::ErrorType::OutOfRange;
-    }
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
+      return Reflector::ErrorType::OutOfRange;
+    break;
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::Integer)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -619,22 +620,23 @@ Reflector::ErrorType Reflector::SetReflectedValueUInt(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
       return Reflector::ErrorType::OutOfRange;
-    }
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
+      return Reflector::ErrorType::OutOfRange;
+    break;
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::UnsignedInteger)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -650,22 +652,23 @@ Reflector::ErrorType Reflector::SetReflectedValueFloat(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
       return Reflector::ErrorType::OutOfRange;
-    }
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
+      return Reflector::ErrorType::OutOfRange;
+    break;
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::FloatingPoint)
     return Reflector::ErrorType::InvalidDestination;
 
-- 
2.43.0


From 43f627b66a344a819a4996e940f10632cc1d8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 25/68] fix: a separator behind the last array element no
 longer writes an element behind the array

---
 datas/reflector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 2446cd3..75f3a75 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -373,7 +373,10 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
         return Reflector::ErrorType::ShortInput;
       }
 
-      if (!cValue.empty() && curElement >= reflValue.numItems) {
+      if (curElement >= reflValue.numItems) {
+        if (cValue.empty())
+          continue; // trailing separator
+
         printerror("[Reflector] Too many array elements, " << reflValue.numItems
                                                            << " expected.");
         return Reflector::ErrorType::OutOfRange;
-- 
2.43.0


From b17b5cbe8bed00c2ea6ac79a35dd1627355f84bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 26/68] fix: GetReflectedPair formats members of classes
 without aliases and descriptions

---
 datas/internal/reflector.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/internal/reflector.inl b/datas/internal/reflector.inl
index e1ef85e..3a09182 100644
--- a/datas/internal/reflector.inl
+++ b/datas/internal/reflector.inl
@@ -214,14 +214,16 @@ Reflector::GetReflectedPair(size_t id, const KVPairFormat &settings) const {
   const auto refInt = GetReflectedInstance().rfStatic;
 
   if (UseNames()) {
-    if (settings.aliasName && refInt->typeAliases[id]) {
+    if (settings.aliasName && refInt->typeAliases &&
+        refInt->typeAliases[id]) {
       retval.name = refInt->typeAliases[id];
     } else {
       retval.name = refInt->typeNames[id];
     }
   }
 
-  if (settings.formatValue && !refInt->typeDescs[id].part1.empty()) {
+  if (settings.formatValue && refInt->typeDescs &&
+      !refInt->typeDescs[id].part1.empty()) {
     retval.value =
         refInt->typeDescs[id].part1.to_string() + ' ' + GetReflectedValue(id);
 
-- 
2.43.0


From e1f13a1461540912ca95b49f85c674af5ce8f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 27/68] fix: a trailing separator is not part of the last array
 element

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 75f3a75..3d3b7ec 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -364,7 +364,7 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     }
 
     if (*it == ',' || isEnding) {
-      es::string_view cValue(curIter, isEnding ? value.end() : it);
+      es::string_view cValue(curIter, *it == ',' ? it : value.end());
       cValue = es::SkipStartWhitespace(cValue);
 
       if (cValue.empty() && curElement < reflValue.numItems) {
-- 
2.43.0


From 3c1593d6524dc2718b1c808515709a0a1a7fed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 28/68] fix: reflected bit fields touch only the bytes of their
 member

---
 datas/reflector.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 3d3b7ec..630f3a9 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -310,6 +310,26 @@ static Reflector::ErrorType SetEnumFlags(es::string_view input, char *objAddr,
   return errType;
 }
 
+// Bit field storage can be smaller than 64 bits, touches only bytes of a member
+struct BitFieldBytes {
+  size_t begin;
+  size_t size;
+
+  BitFieldBytes(reflType type)
+      : begin(type.offset / 8),
+        size((type.offset + type.subSize + 7) / 8 - begin) {}
+
+  uint64 Load(const char *objAddr) const {
+    uint64 storage = 0;
+    memcpy(reinterpret_cast<char *>(&storage) + begin, objAddr + begin, size);
+    return storage;
+  }
+
+  void Store(char *objAddr, uint64 storage) const {
+    memcpy(objAddr + begin, reinterpret_cast<char *>(&storage) + begin, size);
+  }
+};
+
 static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
                                               char *objAddr,
                                               es::string_view value,
@@ -457,7 +477,7 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
     }
   }
   case REFType::BitFieldMember: {
-    uint64 &output = *reinterpret_cast<uint64 *>(objAddr);
+    const BitFieldBytes bytes(reflValue);
     auto doStuff = [&](auto &&insertVal) {
       LimitProxy<typename std::remove_reference<decltype(insertVal)>::type>
           proxy{reflValue.subSize};
@@ -466,8 +486,9 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
       bfMember.size = reflValue.subSize;
       bfMember.position = reflValue.offset;
       auto mask = bfMember.GetMask<uint64>();
-      output &= ~mask;
+      auto output = bytes.Load(objAddr) & ~mask;
       output |= insertVal.value << reflValue.offset;
+      bytes.Store(objAddr, output);
       return err;
     };
 
@@ -826,7 +847,7 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     return _tmpBuffer;
   }
   case REFType::BitFieldMember: {
-    uint64 output = *reinterpret_cast<const uint64 *>(objAddr);
+    uint64 output = BitFieldBytes(type).Load(objAddr);
     BitMember bfMember;
     bfMember.size = type.subSize;
     bfMember.position = type.offset;
-- 
2.43.0


From 0971bd19c8d0a95ff01b63d155054728e689e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 29/68] fix: reflected bit fields know their sign and members
 of 31 bits and more

---
 datas/reflector.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 630f3a9..87427cb 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -98,6 +98,10 @@ template <class type> struct BFTag {
   operator type() const { return value; }
 };
 
+template <class T> struct IsSignedNumber : std::is_signed<T> {};
+template <class type>
+struct IsSignedNumber<BFTag<type>> : std::is_signed<type> {};
+
 template <class type> struct LimitProxy<BFTag<type>> {
   size_t numBits;
   const uint64 uMax;
@@ -105,7 +109,7 @@ template <class type> struct LimitProxy<BFTag<type>> {
   const int64 iMin;
 
   LimitProxy(size_t numBits_)
-      : numBits(numBits_), uMax((1 << numBits) - 1), iMax(uMax >> 1),
+      : numBits(numBits_), uMax(~0ULL >> (64 - numBits)), iMax(uMax >> 1),
         iMin(~iMax) {}
 };
 
@@ -117,7 +121,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
   const int base =
       !input.compare(0, 2, "0x") || !input.compare(0, 3, "-0x") ? 16 : 10;
 
-  if (std::is_signed<T>::value) {
+  if (IsSignedNumber<T>::value) {
     int64 value = 0;
     const int64 iMin = proxy.iMin;
     const int64 iMax = proxy.iMax;
@@ -487,7 +491,7 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
       bfMember.position = reflValue.offset;
       auto mask = bfMember.GetMask<uint64>();
       auto output = bytes.Load(objAddr) & ~mask;
-      output |= insertVal.value << reflValue.offset;
+      output |= (static_cast<uint64>(insertVal.value) << reflValue.offset) & mask;
       bytes.Store(objAddr, output);
       return err;
     };
-- 
2.43.0


From 84aee4280e15e487a1655290a06afd998334e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 30/68] fix: a text that is no number leaves a reflected bit
 field as it is

---
 datas/reflector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 87427cb..5ed04f1 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -486,6 +486,10 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
       LimitProxy<typename std::remove_reference<decltype(insertVal)>::type>
           proxy{reflValue.subSize};
       auto err = SetNumber(value, insertVal, std::true_type{}, proxy);
+
+      if (err == Reflector::ErrorType::InvalidFormat)
+        return err;
+
       BitMember bfMember;
       bfMember.size = reflValue.subSize;
       bfMember.position = reflValue.offset;
-- 
2.43.0


From e6e7e9cd573a1ed137000d52564e742740db7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:03 +0000
Subject: [PATCH 31/68] fix: flags above 31 are read by their index

---
 datas/reflector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 5ed04f1..a4ffd0e 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -986,7 +986,7 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID) const {
 
     memcpy(reinterpret_cast<char *>(&eValue), objAddr, reflValue.subSize);
 
-    return (eValue & (1 << subID)) ? "true" : "false";
+    return (eValue & (1ULL << subID)) ? "true" : "false";
   }
 
   default:
@@ -1035,7 +1035,7 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID,
     memcpy(reinterpret_cast<char *>(&eValue),
            objAddr + reflValue.subSize * subID, reflValue.subSize);
 
-    return (eValue & (1 << element)) ? "true" : "false";
+    return (eValue & (1ULL << element)) ? "true" : "false";
   }
 
   default:
-- 
2.43.0


From 262c1bf671b94265dc1517a9df5ab1ce1e1e7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 32/68] fix: enumerators that do not fit the flags are refused

---
 datas/reflector.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index a4ffd0e..77882e9 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -250,7 +250,7 @@ static Reflector::ErrorType SetEnum(es::string_view input, char *objAddr,
 }
 
 static Reflector::ErrorType FlagFromEnum(es::string_view input, JenHash hash,
-                                         uint64 &fallbackValue,
+                                         uint16 size, uint64 &fallbackValue,
                                          ReflectedEnum *&fallback) {
   input = es::TrimWhitespace(input);
 
@@ -275,6 +275,11 @@ static Reflector::ErrorType FlagFromEnum(es::string_view input, JenHash hash,
     return Reflector::ErrorType::None;
   }
 
+  if (cValue >= size * 8U) {
+    printerror("[Reflector] Enum flag " << input << " is out of range.");
+    return Reflector::ErrorType::OutOfRange;
+  }
+
   fallbackValue |= 1ULL << cValue;
 
   return Reflector::ErrorType::None;
@@ -290,7 +295,7 @@ static Reflector::ErrorType SetEnumFlags(es::string_view input, char *objAddr,
   for (auto &c : input) {
     if (c == '|') {
       auto subErrType =
-          FlagFromEnum({lastIterator, &c}, hash, eValue, rEnumFallback);
+          FlagFromEnum({lastIterator, &c}, hash, size, eValue, rEnumFallback);
       if (subErrType == Reflector::ErrorType::InvalidDestination)
         return subErrType;
       else if (subErrType != Reflector::ErrorType::None)
@@ -301,8 +306,8 @@ static Reflector::ErrorType SetEnumFlags(es::string_view input, char *objAddr,
   }
 
   if (lastIterator < input.end()) {
-    auto subErrType =
-        FlagFromEnum({lastIterator, input.end()}, hash, eValue, rEnumFallback);
+    auto subErrType = FlagFromEnum({lastIterator, input.end()}, hash, size,
+                                   eValue, rEnumFallback);
     if (subErrType == Reflector::ErrorType::InvalidDestination)
       return subErrType;
     else if (subErrType != Reflector::ErrorType::None)
-- 
2.43.0


From 85bf7ec6493055d0f85eda3e79bf79fb0ed98cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:10 +0000
Subject: [PATCH 33/68] fix: flags without a name leave no separator in the
 text

---
 datas/reflector.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 77882e9..6513c2e 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -761,11 +761,13 @@ static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
 
   for (size_t t = 0; t < numBits; t++) {
     if (eValue & (1ULL << t)) {
-      if (result.size())
-        result.append(" | ");
-
       try {
-        result.append(PrintEnumValue(hash, t, &rEnumFallback));
+        const auto flagName = PrintEnumValue(hash, t, &rEnumFallback);
+
+        if (result.size())
+          result.append(" | ");
+
+        result.append(flagName);
       } catch (const std::out_of_range &) {
         printerror("[Reflector] Unregistered enum hash: " << hash.raw());
         break;
-- 
2.43.0


From 69ffa66eff9f289518038910be81db9fed064e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 34/68] fix: negative enumerators are reflected in the width of
 the enumeration

---
 datas/internal/reflector_enum_reg.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/internal/reflector_enum_reg.hpp b/datas/internal/reflector_enum_reg.hpp
index eb93e75..61fc319 100644
--- a/datas/internal/reflector_enum_reg.hpp
+++ b/datas/internal/reflector_enum_reg.hpp
@@ -37,7 +37,7 @@ template <class E> static void _REnumInitializer() {
       cName.remove_prefix(1);
 
     if (cName.empty() || (cName[0] == '=' && cName.size() < 2)) {
-      rEnumValues[t] = lastValue++;
+      rEnumValues[t] = lastValue++ & (~0ULL >> (64 - sizeof(E) * 8));
       continue;
     }
 
@@ -48,7 +48,8 @@ template <class E> static void _REnumInitializer() {
 
     uint64 resVal = std::strtoull(cName.data(), nullptr, _base);
     lastValue = resVal + 1;
-    rEnumValues[t] = resVal;
+    // Negative values are as wide as the enum
+    rEnumValues[t] = resVal & (~0ULL >> (64 - sizeof(E) * 8));
   }
 }
 
-- 
2.43.0


From b9a947851a93f15ad63d9cc54f187a285763f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 35/68] fix: format codecs read no byte past their element

---
 uni/internal/format_full.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 5f3659d..bc9c49d 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -18,6 +18,7 @@
 #include "datas/float.hpp"
 #include "datas/supercore.hpp"
 #include "uni/format.hpp"
+#include <cstring>
 
 namespace _uni_ {
 static constexpr size_t fmtStrides[]{0,  128, 96, 64, 64, 48, 32, 32, 32,
@@ -99,15 +100,15 @@ public:
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32G32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
+    const auto inputRC = *reinterpret_cast<const IVector2 *>(input);
     return IVector4A16(inputRC.X, inputRC.Y, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
-    return IVector4A16(inputRC.X, 0, 0, 0);
+    const auto inputRC = *reinterpret_cast<const int32 *>(input);
+    return IVector4A16(inputRC, 0, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R16G16B16A16> {
@@ -354,7 +355,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R16G16B16> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint64 rtVal = reinterpret_cast<const uint64 &>(*input);
+    uint64 rtVal = 0;
+    memcpy(&rtVal, input, 6);
     UIVector4A16 vctr(_mm_set1_epi64x(rtVal)); // XY, ZW, XY, ZW
     const UIVector4A16 result((vctr * UIVector4A16(1 << 16, 1 << 16, 1, 0)) >>
                               16); // X, Z, Y, W
@@ -404,7 +406,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R8G8B8> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint32 rtVal = reinterpret_cast<const uint32 &>(*input);
+    uint32 rtVal = 0;
+    memcpy(&rtVal, input, 3);
     UIVector4A16 vctr(rtVal);
     return (vctr * UIVector4A16(1 << 24, 1 << 16, 1 << 8, 0)) >> 24;
   }
-- 
2.43.0


From 37d0e68f9241b7ab1a2a1b696e01c0bbf5482f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:30 +0000
Subject: [PATCH 36/68] fix: blue of 11-11-10 floats does not take a bit of
 green

---
 uni/internal/format_full.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index bc9c49d..13832d1 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -763,7 +763,9 @@ template <> class FormatCodec_t<FormatType::FLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // last component is one bit shorter
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
@@ -775,7 +777,9 @@ template <> class FormatCodec_t<FormatType::UFLOAT, DataType::R11G11B10> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
-    const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // last component is one bit shorter
+    const UIVector4A16 result(parent::GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
 
     return codec_type::ToVector4(result);
   }
-- 
2.43.0


From 5f43d4ef830a3a581dcd3344f96cc9dae87872e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:33 +0000
Subject: [PATCH 37/68] fix: narrower normalised components do not take a bit
 of green

---
 uni/internal/format_full.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 13832d1..aab0525 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -465,7 +465,10 @@ public:
   }
 
   static Vector4A16 GetValue(const char *input) {
-    return Vector4A16(GetValueNoFrac(input)) * GetFraction(11);
+    // last component is one bit shorter
+    const UIVector4A16 result(GetValueNoFrac(input) &
+                              UIVector4A16(0x7ff, 0x7ff, 0x7fe, 0));
+    return Vector4A16(result) * GetFraction(11);
   }
 };
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R24G8> {
@@ -511,7 +514,10 @@ public:
   }
 
   static Vector4A16 GetValue(const char *input) {
-    return Vector4A16(GetValueNoFrac(input)) * GetFraction(6);
+    // first and last component are one bit shorter
+    const UIVector4A16 result(GetValueNoFrac(input) &
+                              UIVector4A16(0x3e, 0x3f, 0x3e, 0));
+    return Vector4A16(result) * GetFraction(6);
   }
 };
 
-- 
2.43.0


From 1da8b84ced6af797fad44af0dd074b29433ea199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 38/68] fix: decode the three colour mode of BC1 blocks

A BC1 block with color0 <= color1 has one mixed colour and black, not two
mixed colours.
---
 formats/BlockDecoder.inl | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 147246a..a05216e 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -17,12 +17,17 @@
 */
 
 #include "BlockDecoder.h"
+#include <cstring>
 
 inline void _DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
-                            uint32 width, const uint32 pixeloffset = 3) {
+                            uint32 width, const uint32 pixeloffset = 3,
+                            const bool allow3Colors = false) {
   Vector color1, color2;
+  uint16 cl1, cl2;
+  memcpy(&cl1, data, sizeof(cl1));
   DecodeRGB565Block(data, color1);
   data += 2;
+  memcpy(&cl2, data, sizeof(cl2));
   DecodeRGB565Block(data, color2);
   data += 2;
   h *= 4;
@@ -38,6 +43,11 @@ inline void _DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
           .Convert<uint8>(),
   };
 
+  if (allow3Colors && cl1 <= cl2) {
+    colors[2] = ((color1 + color2) * 127.5f).Convert<uint8>();
+    colors[3] = UCVector();
+  }
+
   for (int row = 0; row < 4; row++) {
     reinterpret_cast<UCVector &>(
         *(obuffer + ((h + row) * width + w) * pixeloffset)) = colors[*data & 3];
@@ -154,7 +164,7 @@ inline void DecodeBC2Block(const char *data, char *obuffer, uint32 w, uint32 h,
 
 inline void DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
                            uint32 width) {
-  _DecodeBC1Block(data, obuffer, w, h, width);
+  _DecodeBC1Block(data, obuffer, w, h, width, 3, true);
 }
 
 inline void _DecodeBC4Block(const char *data, char *obuffer, uint32 w, uint32 h,
-- 
2.43.0


From fd5b6daaf1e4cc3ed11a15c5717117bfd5f5ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 39/68] fix: write the alpha of every texel of BC1A blocks

It was left unwritten for blocks without transparent texels, and the
average of two white colours came out as 254.
---
 formats/BlockDecoder.inl | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index a05216e..70aa2a4 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -91,7 +91,7 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         ((((color1 * (1.0f / 3.0f)) + (color2 * (2.0f / 3.0f)))) * 255.f)
             .Convert<uint8>();
   } else {
-    *(colors + 2) = ((color1 + color2) * 127.f).Convert<uint8>();
+    *(colors + 2) = ((color1 + color2) * 127.5f).Convert<uint8>();
     *(colors + 3) = *(colors + 2);
     usealpha = true;
   }
@@ -112,20 +112,18 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         *(obuffer + ((h + row) * width + w + 3) * pixeloffset)) = colors[d4];
     data++;
 
-    if (usealpha) {
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
-          d1 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
-          d2 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
-          d3 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
-          d4 == 3 ? 0 : 0xff;
-    }
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
+        usealpha && d1 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
+        usealpha && d2 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
+        usealpha && d3 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
+        usealpha && d4 == 3 ? 0 : 0xff;
   }
 }
 
-- 
2.43.0


From 16cd34fd102f739c51f8f0519a84557f6f356aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:52 +0000
Subject: [PATCH 40/68] fix: full scale third axis of BC5 normals

The result was up to one step short and its conversion to char out of range.
---
 formats/BlockDecoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/BlockDecoder.h b/formats/BlockDecoder.h
index efb26bf..c9bf3d3 100644
--- a/formats/BlockDecoder.h
+++ b/formats/BlockDecoder.h
@@ -59,6 +59,6 @@ inline void ComputeBC5Blue(char *buffer, uint32 size) {
 
     zcomp = sqrtf(1.0f - zcomp);
 
-    *(buffer + p) = static_cast<char>((zcomp + 1.f) * SCHAR_MAX);
+    *(buffer + p) = static_cast<uint8>((zcomp + 1.f) * (UCHAR_MAX / 2.f));
   }
 }
-- 
2.43.0


From c3ef176c29cd55714ca7859ddea9da4e6e7d0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:47 +0000
Subject: [PATCH 41/68] fix: decode colours of BC1 blocks with SIMD

Components with the top bit set bled into their neighbours through the
arithmetic shift, bits of the component below stayed in, nothing was scaled
to the full range, mixed colours were short and the three colour mode was
missing.
---
 formats/BlockDecoderSimd.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/formats/BlockDecoderSimd.hpp b/formats/BlockDecoderSimd.hpp
index adf52c8..a04db97 100644
--- a/formats/BlockDecoderSimd.hpp
+++ b/formats/BlockDecoderSimd.hpp
@@ -26,8 +26,15 @@ static inline void DecodeRGB565Blocks(const char *data, IVector4A16 &color0,
   const auto cl0 = cl00 * IVector4A16(0x8000000, 0x200000, 0x10000, 0);
   const auto cl1 = cl00 * IVector4A16(0x800, 0x20, 0x1, 0);
 
-  color0 = cl0 >> 24;
-  color1 = cl1 >> 24;
+  // Keep only bits of the component and scale them into 0 - 255
+  static const UIVector4A16 componentMask(0x3e, 0x3f, 0x3e, 0);
+  static const UIVector4A16 scale(527, 518, 527, 0);
+  static const UIVector4A16 bias(46, 66, 46, 0);
+  const auto high0 = (UIVector4A16(cl0._data) >> 26) & componentMask;
+  const auto high1 = (UIVector4A16(cl1._data) >> 26) & componentMask;
+
+  color0 = IVector4A16(((high0 * scale + bias) >> 7)._data);
+  color1 = IVector4A16(((high1 * scale + bias) >> 7)._data);
 }
 
 inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
@@ -35,14 +42,22 @@ inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
                              const uint32 pixeloffset = 3) {
   IVector4A16 color0, color1;
   DecodeRGB565Blocks(data, color0, color1);
+  uint16 rawColors[2];
+  memcpy(rawColors, data, sizeof(rawColors));
   data += 4;
   h *= 4;
   w *= 4;
   width *= 4;
 
-  // Precompute colors
-  IVector4A16 color2(((color0 * 0xaa) + (color1 * 0x55)) >> 8);
-  IVector4A16 color3(((color0 * 0x55) + (color1 * 0xaa)) >> 8);
+  // Precompute colors, x / 3 is x * 0x5556 >> 16
+  IVector4A16 color2(((color0 * 2 + color1 + 1) * 0x5556) >> 16);
+  IVector4A16 color3(((color0 + color1 * 2 + 1) * 0x5556) >> 16);
+
+  // 3 color mode
+  if (rawColors[0] <= rawColors[1]) {
+    color2 = (color0 + color1 + 1) >> 1;
+    color3 = IVector4A16(0);
+  }
 
   static const IVector4A16 shiftMask(1, 0x100, 0x10000, 1);
 
-- 
2.43.0


From 1e04d20c78c5ea10c912631f3b969003e4ae5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:32 +0000
Subject: [PATCH 42/68] fix: ZIP64 directory records keep their byte order

Every archive record is stored as is but two fields of this one, which were
swapped by readers and writers of swapped endianness.
---
 formats/ZIP_istream.inl | 5 +++--
 formats/ZIP_ostream.inl | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/formats/ZIP_istream.inl b/formats/ZIP_istream.inl
index b7a631e..27a6ed9 100644
--- a/formats/ZIP_istream.inl
+++ b/formats/ZIP_istream.inl
@@ -40,10 +40,11 @@ inline void ZIPCentralDir::Read(BinReaderRef rd) {
 }
 
 inline void ZIP64CentralDir::Read(BinReaderRef rd) {
-  rd.Read(id);
+  rd.ReadBuffer(reinterpret_cast<char *>(&id), sizeof(id));
   rd.ReadBuffer(reinterpret_cast<char *>(&dirRecord),
                 getBlockSize(ZIP64CentralDir, dirRecord, diskNumber));
-  rd.Read(startDiskNumber);
+  rd.ReadBuffer(reinterpret_cast<char *>(&startDiskNumber),
+                sizeof(startDiskNumber));
   rd.ReadBuffer(reinterpret_cast<char *>(&numDiskEntries),
                 getBlockSize(ZIP64CentralDir, numDiskEntries, dirOffset));
 }
diff --git a/formats/ZIP_ostream.inl b/formats/ZIP_ostream.inl
index 55aa377..c58dc48 100644
--- a/formats/ZIP_ostream.inl
+++ b/formats/ZIP_ostream.inl
@@ -40,10 +40,11 @@ inline void ZIPCentralDir::Write(BinWritterRef wr) const {
 }
 
 inline void ZIP64CentralDir::Write(BinWritterRef wr) const {
-  wr.Write(id);
+  wr.WriteBuffer(reinterpret_cast<const char *>(&id), sizeof(id));
   wr.WriteBuffer(reinterpret_cast<const char *>(&dirRecord),
                  getBlockSize(ZIP64CentralDir, dirRecord, diskNumber));
-  wr.Write(startDiskNumber);
+  wr.WriteBuffer(reinterpret_cast<const char *>(&startDiskNumber),
+                 sizeof(startDiskNumber));
   wr.WriteBuffer(reinterpret_cast<const char *>(&numDiskEntries),
                  getBlockSize(ZIP64CentralDir, numDiskEntries, dirOffset));
 }
-- 
2.43.0


From 1f4f531b3af3164be5d4c3d7c4ab632aba9f5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:10 +0000
Subject: [PATCH 43/68] fix: refuse truncated ZIP archives

Headers that were cut off were used uninitialised, and a file or a comment
cut off left an index entry behind with a stream nothing could be read from.
---
 datas/zip_vfs.hpp | 58 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index f8ebbae..5de4583 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -61,20 +61,48 @@ private:
   BinReaderRef rd;
   mutable std::mutex rdMutex;
 
+  size_t fileSize = 0;
+
+  [[noreturn]] void Truncated() const {
+    using std::to_string;
+    throw std::runtime_error("Unexpected end of ZIP at " +
+                             to_string(rd.Tell()));
+  }
+
+  template <class C> void ReadItem(C &item) const {
+    rd.Read(item);
+
+    if (rd.IsEOF()) {
+      Truncated();
+    }
+  }
+
+  void Require(size_t size) const {
+    if (size > fileSize - rd.Tell()) {
+      Truncated();
+    }
+  }
+
+  void Skip(size_t size) const {
+    Require(size);
+    rd.Skip(size);
+  }
+
   void ReadEntry() {
     uint32 id;
     rd.Push();
-    rd.Read(id);
+    ReadItem(id);
     rd.Pop();
 
     switch (id) {
     case ZIPLocalFile::ID: {
       ZIPLocalFile hdr;
-      rd.Read(hdr);
+      ReadItem(hdr);
 
       [&] {
         if (!hdr.compressedSize) {
-          rd.Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.uncompressedSize);
+          Skip(size_t(hdr.fileNameSize) + hdr.extraFieldSize +
+               hdr.uncompressedSize);
           return;
         }
 
@@ -90,6 +118,8 @@ private:
           throw std::runtime_error("ZIP local file's path must be specified!");
         }
 
+        Require(size_t(hdr.fileNameSize) + hdr.extraFieldSize +
+                hdr.compressedSize);
         std::string path;
         rd.ReadContainer(path, hdr.fileNameSize);
         rd.Skip(hdr.extraFieldSize);
@@ -101,41 +131,41 @@ private:
 
     case ZIPFile::ID: {
       ZIPFile hdr;
-      rd.Read(hdr);
-      rd.Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.fileCommentSize);
+      ReadItem(hdr);
+      Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.fileCommentSize);
       break;
     };
 
     case ZIPCentralDir::ID: {
       ZIPCentralDir hdr;
-      rd.Read(hdr);
-      rd.Skip(hdr.commentSize);
+      ReadItem(hdr);
+      Skip(hdr.commentSize);
       break;
     }
 
     case ZIP64CentralDir::ID: {
       ZIP64CentralDir hdr;
-      rd.Read(hdr);
+      ReadItem(hdr);
       break;
     }
 
     case ZIP64CentralDirLocator::ID: {
       ZIP64CentralDirLocator hdr;
-      rd.Read(hdr);
+      ReadItem(hdr);
       break;
     }
 
     case ZIPSignature::ID: {
       ZIPSignature hdr;
-      rd.Read(hdr);
-      rd.Skip(hdr.dataSize);
+      ReadItem(hdr);
+      Skip(hdr.dataSize);
       break;
     }
 
     case ZIPExtraData::ID: {
       ZIPExtraData hdr;
-      rd.Read(hdr);
-      rd.Skip(hdr.dataSize);
+      ReadItem(hdr);
+      Skip(hdr.dataSize);
       break;
     }
 
@@ -147,7 +177,7 @@ private:
   }
 
   void Read() {
-    const size_t fileSize = rd.GetSize();
+    fileSize = rd.GetSize();
     while (rd.Tell() < fileSize) {
       ReadEntry();
     }
-- 
2.43.0


From 1c090aa0d7defa71db107dca4b46473ba23a54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:21 +0000
Subject: [PATCH 44/68] fix: a moved ZIPVFSFile reads its own buffer

The reader went on using the stream of the moved from, possibly destroyed
file.
---
 datas/zip_vfs.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 5de4583..9c67d41 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -28,6 +28,10 @@ struct ZIPVFSFile {
   operator BinReaderRef() const { return reader; }
 
   ZIPVFSFile(std::string &&str) : buffer(str), reader(buffer){};
+  ZIPVFSFile(ZIPVFSFile &&other)
+      : buffer(std::move(other.buffer)), reader(buffer) {
+    reader.SwapEndian(other.reader.SwappedEndian());
+  }
 };
 
 class ZIPVFS : std::map<std::string, std::pair<size_t, size_t>> {
-- 
2.43.0


From 44f372227ac6184cd68ff5da6c86a6d716137ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:08 +0000
Subject: [PATCH 45/68] fix: WAVEGenericHeader::Next skips the chunk head and
 its padding

The size of a chunk counts neither its head nor the byte that aligns the
next chunk, Next led into the chunk itself.
---
 formats/WAVE.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/WAVE.hpp b/formats/WAVE.hpp
index 06e1f64..46bc3c7 100644
--- a/formats/WAVE.hpp
+++ b/formats/WAVE.hpp
@@ -26,7 +26,8 @@ struct WAVEGenericHeader {
 
   WAVEGenericHeader *Next() {
     return reinterpret_cast<WAVEGenericHeader *>(
-        reinterpret_cast<char *>(this) + chunkSize);
+        reinterpret_cast<char *>(this) + sizeof(WAVEGenericHeader) + chunkSize +
+        (chunkSize & 1));
   }
 };
 
-- 
2.43.0


From c515dbb0172160afe25a0dc73dbd765097ab739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:53 +0000
Subject: [PATCH 46/68] fix: no DDS header field indexes past a table

---
 formats/DDS.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 13ef396..a71f490 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -413,7 +413,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     DDS_PixelFormat &tformat = static_cast<DDS_PixelFormat &>(*this);
 
     if (tformat == DDSFormat_DX10) {
-      bpp = _bpps[dxgiFormat];
+      bpp = dxgiFormat < sizeof(_bpps) / sizeof(_bpps[0]) ? _bpps[dxgiFormat] : 0;
     } else {
       switch (fourCC) {
       case 36:
@@ -467,6 +467,11 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       return 0;
 
     uint32 _mipCount = mipMapCount ? mipMapCount : 1;
+
+    if (_mipCount > Mips::maxMips) {
+      _mipCount = Mips::maxMips;
+    }
+
     uint32 _width = width;
     uint32 _height = height;
     uint32 fullBuffer = 0;
-- 
2.43.0


From 0553e41ccd575df5c54a5a6c277f1d91ac7ff8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:53 +0000
Subject: [PATCH 47/68] fix: compute the width of UYVY textures

---
 formats/DDS.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index a71f490..efb65ae 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -429,6 +429,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       case 114:
       case CompileFourCC("RBGB"):
       case CompileFourCC("GRGB"):
+      case CompileFourCC("UYVY"):
       case CompileFourCC("YUY2"):
         bpp = 32;
         break;
-- 
2.43.0


From cce22d41a08fb6f3248bd48ae088568632303c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:53 +0000
Subject: [PATCH 48/68] fix: sizes of mip levels follow the DDS format

---
 formats/DDS.hpp | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index efb65ae..9df33e1 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -479,26 +479,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     bool useBlockCompression = false;
 
     if (dxgiFormat) {
-      switch (dxgiFormat) {
-      case DXGI_FORMAT_BC1_UNORM:
-      case DXGI_FORMAT_BC1_UNORM_SRGB:
-      case DXGI_FORMAT_BC2_UNORM:
-      case DXGI_FORMAT_BC2_UNORM_SRGB:
-      case DXGI_FORMAT_BC3_UNORM:
-      case DXGI_FORMAT_BC3_UNORM_SRGB:
-      case DXGI_FORMAT_BC4_UNORM:
-      case DXGI_FORMAT_BC4_SNORM:
-      case DXGI_FORMAT_BC5_UNORM:
-      case DXGI_FORMAT_BC5_SNORM:
-      case DXGI_FORMAT_BC6H_UF16:
-      case DXGI_FORMAT_BC6H_SF16:
-      case DXGI_FORMAT_BC7_UNORM:
-      case DXGI_FORMAT_BC7_UNORM_SRGB:
-        useBlockCompression = true;
-        break;
-      default:
-        break;
-      }
+      useBlockCompression = IsBC(dxgiFormat);
     } else {
       switch (fourCC) {
       case CompileFourCC("DXT1"):
@@ -522,16 +503,17 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     for (uint32 m = 0; m < _mipCount; m++) {
       uint32 __width = _width, __height = _height;
 
-      if (useBlockCompression && (__width * __height < 16)) {
-        __width = 4;
-        __height = 4;
+      if (useBlockCompression) {
+        __width = (__width + 3) & ~3U;
+        __height = (__height + 3) & ~3U;
       }
 
-      dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
+      dOut.sizes[m] =
+          uint32((static_cast<uint64>(__width) * __height * bpp + 7) / 8);
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
-      _width /= 2;
-      _height /= 2;
+      _width = _width > 1 ? _width / 2 : 1;
+      _height = _height > 1 ? _height / 2 : 1;
     }
 
     return fullBuffer;
-- 
2.43.0


From ceac93508265b131e6993164947c7e99c8ac526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:53 +0000
Subject: [PATCH 49/68] fix: packed DDS formats hold two texels per value

---
 formats/DDS.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 9df33e1..6a16036 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -477,9 +477,13 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     uint32 _height = height;
     uint32 fullBuffer = 0;
     bool useBlockCompression = false;
+    bool usePackedTexels = false;
 
     if (dxgiFormat) {
       useBlockCompression = IsBC(dxgiFormat);
+      usePackedTexels = dxgiFormat == DXGI_FORMAT_R8G8_B8G8_UNORM ||
+                        dxgiFormat == DXGI_FORMAT_G8R8_G8B8_UNORM ||
+                        dxgiFormat == DXGI_FORMAT_YUY2;
     } else {
       switch (fourCC) {
       case CompileFourCC("DXT1"):
@@ -495,6 +499,12 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       case CompileFourCC("BC5S"):
         useBlockCompression = true;
         break;
+      case CompileFourCC("RBGB"):
+      case CompileFourCC("GRGB"):
+      case CompileFourCC("UYVY"):
+      case CompileFourCC("YUY2"):
+        usePackedTexels = true;
+        break;
       default:
         break;
       }
@@ -506,6 +516,9 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       if (useBlockCompression) {
         __width = (__width + 3) & ~3U;
         __height = (__height + 3) & ~3U;
+      } else if (usePackedTexels) {
+        // two texels share one 32 bit value
+        __width = __width / 2 + (__width & 1);
       }
 
       dOut.sizes[m] =
-- 
2.43.0


From 31e2cdfb829fe543b71b65df15fc6be06a2e661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:53 +0000
Subject: [PATCH 50/68] fix: A2B10G10R10 has an alpha mask

---
 formats/DDS.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 6a16036..b022398 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -323,7 +323,7 @@ static constexpr DDS_PixelFormat DDSFormat_DX10(CompileFourCC("DX10"), 0);
 
 static constexpr DDS_PixelFormat DDSFormat_A2B10G10R10(
     {DDS_PixelFormat::PFFlags_RGB, DDS_PixelFormat::PFFlags_AlphaPixels}, 32,
-    0x000003ff, 0x000ffc00, 0x3ff00000, 0x00000000);
+    0x000003ff, 0x000ffc00, 0x3ff00000, 0xc0000000);
 static constexpr DDS_PixelFormat DDSFormat_A8R8G8B8(
     {DDS_PixelFormat::PFFlags_RGB, DDS_PixelFormat::PFFlags_AlphaPixels}, 32,
     0x00ff0000, 0x0000ff00, 0x000000ff, 0xff000000);
-- 
2.43.0


From e27d1b9e8cc89b9b41549a2ac3b51d7165c7a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:11 +0000
Subject: [PATCH 51/68] fix: legacy DDS masks match the channels of their
 format

---
 formats/DDS.hpp | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index b022398..4add13c 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -612,7 +612,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       if (tformat == DDSFormat_A2B10G10R10)
         dxgiFormat = DXGI_FORMAT_R10G10B10A2_UNORM;
       else if (tformat == DDSFormat_A8R8G8B8)
-        dxgiFormat = DXGI_FORMAT_R8G8B8A8_UNORM;
+        dxgiFormat = DXGI_FORMAT_B8G8R8A8_UNORM;
       else if (tformat == DDSFormat_G16R16)
         dxgiFormat = DXGI_FORMAT_R16G16_UNORM;
       else if (tformat == DDSFormat_A8)
@@ -632,18 +632,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
                                 DDS_PixelFormat::PFFlags_AlphaPixels},
                                32, 0x000000ff, 0x0000ff00, 0x00ff0000,
                                0xff000000))
-        dxgiFormat = DXGI_FORMAT_B8G8R8A8_UNORM;
-      else if (tformat ==
-               DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                DDS_PixelFormat::PFFlags_AlphaPixels},
-                               32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                               0x00000000))
+        dxgiFormat = DXGI_FORMAT_R8G8B8A8_UNORM;
+      else if (tformat == DDSFormat_X8R8G8B8)
         dxgiFormat = DXGI_FORMAT_B8G8R8X8_UNORM;
-      else if (tformat ==
-               DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                DDS_PixelFormat::PFFlags_AlphaPixels},
-                               16, 0x0000000f, 0x000000f0, 0x00000f00,
-                               0x0000f000))
+      else if (tformat == DDSFormat_A4R4G4B4)
         dxgiFormat = DXGI_FORMAT_B4G4R4A4_UNORM;
       else
         result = 1;
@@ -672,7 +664,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       operator=(DDSFormat_A2B10G10R10);
       break;
     case DXGI_FORMAT_R8G8B8A8_UNORM:
-      operator=(DDSFormat_A8R8G8B8);
+      operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
+                                 DDS_PixelFormat::PFFlags_AlphaPixels},
+                                32, 0x000000ff, 0x0000ff00, 0x00ff0000,
+                                0xff000000));
       break;
     case DXGI_FORMAT_R16G16_UNORM:
       operator=(DDSFormat_G16R16);
@@ -749,7 +744,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
 
       switch (dxgiFormat) {
       case DXGI_FORMAT_R8G8B8A8_UNORM_SRGB:
-        operator=(DDSFormat_A8R8G8B8);
+        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
+                                   DDS_PixelFormat::PFFlags_AlphaPixels},
+                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
+                                  0xff000000));
         break;
       case DXGI_FORMAT_R8G8_UNORM:
         operator=(DDSFormat_A8L8);
@@ -772,23 +770,14 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         break;
       case DXGI_FORMAT_B8G8R8A8_UNORM:
       case DXGI_FORMAT_B8G8R8A8_UNORM_SRGB:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                                  0xff000000));
+        operator=(DDSFormat_A8R8G8B8);
         break;
       case DXGI_FORMAT_B8G8R8X8_UNORM:
       case DXGI_FORMAT_B8G8R8X8_UNORM_SRGB:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                                  0x00000000));
+        operator=(DDSFormat_X8R8G8B8);
         break;
       case DXGI_FORMAT_B4G4R4A4_UNORM:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  16, 0x0000000f, 0x000000f0, 0x00000f00,
-                                  0x0000f000));
+        operator=(DDSFormat_A4R4G4B4);
         break;
       default:
         result = 1;
-- 
2.43.0


From a0dcbcd7cbab36d266bfd837809243d0f69394a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:35 +0000
Subject: [PATCH 52/68] fix: save members of nested objects of nested objects

---
 datas/reflector_io.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d142d75..cc33d65 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -422,8 +422,7 @@ public:
   using Reflector::GetReflectedType;
 };
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr);
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr);
 
 static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
                          const char *objAddr, reflType type) {
@@ -488,15 +487,15 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
-    return SaveClass(ri, sri, wr);
+    return SaveClass(sri, wr);
   }
   default:
     return 1;
   }
 }
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr) {
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
+  ReflectorPureWrap ri(inst);
   auto refData = inst.Refl();
   const buint128 numItems = refData->nTypes;
   const char *thisAddr = static_cast<const char *>(inst.Instance());
@@ -535,7 +534,7 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
 
   wr.Write(refData->classHash);
 
-  return SaveClass(ri, inst, wr);
+  return SaveClass(inst, wr);
 }
 
 static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd);
-- 
2.43.0


From 4b7e9184ce5da7633aaefe5b0e2467d233a92f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:35 +0000
Subject: [PATCH 53/68] fix: nested reflection records follow the byte order of
 their stream

---
 datas/reflector_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index cc33d65..7f9670a 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -502,6 +502,7 @@ static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
   std::stringstream tmpClassBuffer;
 
   BinWritterRef wrTmpClass(tmpClassBuffer);
+  wrTmpClass.SwapEndian(wr.SwappedEndian());
   wrTmpClass.Write(numItems);
 
   for (size_t i = 0; i < numItems; i++) {
@@ -509,6 +510,7 @@ static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
 
     std::stringstream tmpValueBuffer;
     BinWritterRef wrTmp(tmpValueBuffer);
+    wrTmp.SwapEndian(wr.SwappedEndian());
 
     int rVal = WriteDataItem(ri, wrTmp, thisAddr + refData->types[i].offset,
                              refData->types[i]);
-- 
2.43.0


From fea30424177f6c7abb2f3cfb2269146349b355fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:35 +0000
Subject: [PATCH 54/68] fix: a reflected member of another size does not shift
 the ones behind

---
 datas/reflector_io.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 7f9670a..1d1a105 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -645,12 +645,16 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
       continue;
     }
 
-    errType = LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
+    const int valueErr =
+        LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
 
-    if (errType) {
-      rd.Pop();
-      rd.Skip(valueChunkSize);
+    if (valueErr) {
+      errType = valueErr;
     }
+
+    // Member might have been saved with different type
+    rd.Pop();
+    rd.Skip(valueChunkSize);
   }
 
   return errType;
-- 
2.43.0


From 96982ff3cd407661a2f013da620a8aa634990c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:35 +0000
Subject: [PATCH 55/68] fix: refuse reflection records cut off

---
 datas/base_128.hpp     | 4 ++--
 datas/reflector_io.cpp | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index b5fa3c3..539a0bc 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -30,7 +30,7 @@ struct bint128 {
   int64 Read(BinReaderRef rd) {
     value = 0;
     for (size_t id = 0; id < 9; id++) {
-      uint8 cNum;
+      uint8 cNum = 0;
       rd.Read(cNum);
 
       if (id < 8) {
@@ -97,7 +97,7 @@ struct buint128 {
   uint64 Read(BinReaderRef rd) {
     value = 0;
     for (size_t id = 0; id < 9; id++) {
-      uint8 cNum;
+      uint8 cNum = 0;
       rd.Read(cNum);
 
       if (id == 8) {
diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 1d1a105..a568dcc 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -614,6 +614,11 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
   char *thisAddr = static_cast<char *>(inst.Instance());
   buint128 chunkSize;
   rd.Read(chunkSize);
+
+  if (rd.IsEOF() || chunkSize > rd.GetSize() - rd.Tell()) {
+    return 1;
+  }
+
   rd.Push();
 
   buint128 numIOItems;
@@ -665,7 +670,7 @@ int ReflectorBinUtil::Load(Reflector &ri, BinReaderRef rd) {
   auto inst =
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance());
   auto refData = inst.Refl();
-  JenHash clsHash;
+  JenHash clsHash{};
 
   rd.Push();
   rd.Read(clsHash);
-- 
2.43.0


From cdcbad2652885e3be30a6a85d0c883892ddda089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:14 +0000
Subject: [PATCH 56/68] fix: alias hashes of saved reflection descriptions are
 found again

---
 datas/reflector_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index a568dcc..866ceed 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -148,7 +148,7 @@ int ReflectorIO::Load(BinReaderRef rd) {
     }
 
     if (itemIO->aliassesHashesPtr) {
-      itemPtrsBegin[3] = bufferStart + itemIO->aliassesHashesPtr;
+      itemPtrsBegin[4] = bufferStart + itemIO->aliassesHashesPtr;
     } else {
       itemPtrsBegin[4] = 0;
     }
@@ -405,6 +405,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   classnamesFixups.WriteFixups();
   aliasesFixups.WriteFixups();
   descsFixups.WriteFixups();
+  aliasHashesFixups.WriteFixups();
   wr.Seek(0, std::ios_base::end);
 
   return 0;
-- 
2.43.0


From e34e25b1950e499abc65ce1b0693047401692107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:14 +0000
Subject: [PATCH 57/68] fix: reflection descriptions can be saved behind other
 data

---
 datas/reflector_io.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 866ceed..43041cb 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -213,6 +213,8 @@ int ReflectorIO::Save(BinWritterRef wr) {
   ReflectorIOHeader hdr;
   hdr.numClasses = static_cast<uint32>(classes.size());
   hdr.numEnums = static_cast<uint32>(enums.size());
+  wr.ResetRelativeOrigin(false);
+  const size_t headerPos = wr.Tell();
   wr.Write(hdr);
   wr.SetRelativeOrigin(wr.Tell(), false);
 
@@ -398,7 +400,8 @@ int ReflectorIO::Save(BinWritterRef wr) {
   }
 
   hdr.bufferSize = static_cast<uint32>(wr.Tell());
-  wr.ResetRelativeOrigin();
+  wr.ResetRelativeOrigin(false);
+  wr.Seek(headerPos);
   wr.Write(hdr);
   itemFixups.WriteFixups();
   itemStringsFixups.WriteFixups();
-- 
2.43.0


From d060d7a3ee743dfd26ca7b43a8e00ab7f4c2c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:14 +0000
Subject: [PATCH 58/68] fix: refuse reflection descriptions cut off

---
 datas/reflector_io.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 43041cb..83b302a 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -87,12 +87,17 @@ int ReflectorIO::Load(BinReaderRef rd) {
 
   rd.Read(hdr);
 
-  if (hdr.id != hdr.ID)
+  if (rd.IsEOF() || hdr.id != hdr.ID)
     return 1;
 
   if (hdr.version > hdr.VERSION)
     return 2;
 
+  if (hdr.bufferSize > rd.GetSize() - rd.Tell())
+    return 3;
+
+  classes.clear();
+  enums.clear();
   rd.ReadContainer(data, hdr.bufferSize);
 
   const reflectorStatic *classesStart =
-- 
2.43.0


From 3889f6613647060ebf882da722b0616352da9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:16 +0000
Subject: [PATCH 59/68] fix: wide text of vectors has the type of wide text

---
 datas/vectors_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/vectors_string.hpp b/datas/vectors_string.hpp
index 7125d94..02eb461 100644
--- a/datas/vectors_string.hpp
+++ b/datas/vectors_string.hpp
@@ -34,16 +34,16 @@ template <class C> string to_string(const t_Vector4_<C> &type) {
          ' ' + to_string(type.w);
 }
 
-template <class C> string to_wstring(const t_Vector2<C> &type) {
+template <class C> wstring to_wstring(const t_Vector2<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y);
 }
 
-template <class C> string to_wstring(const t_Vector<C> &type) {
+template <class C> wstring to_wstring(const t_Vector<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
          to_wstring(type.z);
 }
 
-template <class C> string to_wstring(const t_Vector4_<C> &type) {
+template <class C> wstring to_wstring(const t_Vector4_<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
          to_wstring(type.z) + L' ' + to_wstring(type.w);
 }
-- 
2.43.0


From e586e1501fa2617d1e9966744cedf294431b3621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:36 +0000
Subject: [PATCH 60/68] fix: help of settings without descriptions

---
 datas/settings_manager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 04442ee..d975363 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -80,7 +80,7 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
 
     for (size_t i = 0; i < ref->nTypes; i++) {
       es::string_view elName = ref->typeNames[i];
-      auto elDesc = ref->typeDescs[i];
+      auto elDesc = ref->typeDescs ? ref->typeDescs[i] : _ReflDesc{};
       fillIndent() << elName << std::endl;
 
       if (!elDesc.part1.empty()) {
-- 
2.43.0


From f99dea9cb4246f6a56b816fba740024b52bf6a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:51 +0000
Subject: [PATCH 61/68] fix: read enumerator values in the base their prefix
 tells

---
 datas/internal/reflector_enum_reg.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datas/internal/reflector_enum_reg.hpp b/datas/internal/reflector_enum_reg.hpp
index 61fc319..568af04 100644
--- a/datas/internal/reflector_enum_reg.hpp
+++ b/datas/internal/reflector_enum_reg.hpp
@@ -44,9 +44,8 @@ template <class E> static void _REnumInitializer() {
     cName.remove_prefix(1);
     cName = es::SkipStartWhitespace(cName);
 
-    const int _base = !cName.compare(0, 2, "0x") ? 16 : 10;
-
-    uint64 resVal = std::strtoull(cName.data(), nullptr, _base);
+    // The prefix tells the base
+    uint64 resVal = std::strtoull(cName.data(), nullptr, 0);
     lastValue = resVal + 1;
     // Negative values are as wide as the enum
     rEnumValues[t] = resVal & (~0ULL >> (64 - sizeof(E) * 8));
-- 
2.43.0


From 8a61acb0d10f2d1d691bd0afa8caa8b4f73487a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:16 +0000
Subject: [PATCH 62/68] fix: write arrays in swapped byte order element by
 element

---
 datas/binwritter_ref.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datas/binwritter_ref.hpp b/datas/binwritter_ref.hpp
index 529b532..02c1593 100644
--- a/datas/binwritter_ref.hpp
+++ b/datas/binwritter_ref.hpp
@@ -90,6 +90,18 @@ public:
     Write<charType>(0);
   }
 
+  template <class T, size_t _size> void Write(const T (&input)[_size]) const {
+    const size_t size = sizeof(T);
+
+    if (this->swapEndian && size > 1) {
+      for (const auto &i : input) {
+        Write(i);
+      }
+    } else {
+      WriteBuffer(reinterpret_cast<const char *>(input), size * _size);
+    }
+  }
+
   // SFINAE
   // Write class with its Write(BinWritterRef_t) const member method, or writes
   // type itself
-- 
2.43.0


From 3f939c076dbdb7a5e9bb8255c16dc4249559a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:19 +0000
Subject: [PATCH 63/68] fix: a moved file reader or writer kept using the
 stream of its source

---
 datas/binreader.hpp  | 8 +++++++-
 datas/binwritter.hpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/datas/binreader.hpp b/datas/binreader.hpp
index 3ef4984..374281c 100644
--- a/datas/binreader.hpp
+++ b/datas/binreader.hpp
@@ -37,7 +37,13 @@ public:
   }
   BinReader(const char *filePath) { OpenFile(filePath); }
   BinReader(const BinReader &) = delete;
-  BinReader(BinReader &&) = default;
+  BinReader(BinReader &&other)
+      : BinReaderRef(other), BinStreamFile(std::move(other)) {
+    // opened stream has moved as well
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinReader &operator=(const BinReader &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
diff --git a/datas/binwritter.hpp b/datas/binwritter.hpp
index 155b74b..fa8ebe0 100644
--- a/datas/binwritter.hpp
+++ b/datas/binwritter.hpp
@@ -38,7 +38,13 @@ public:
   BinWritter(const char *filePath) { OpenFile(filePath); }
 
   BinWritter(const BinWritter &rd) = delete;
-  BinWritter(BinWritter &&) = default;
+  BinWritter(BinWritter &&other)
+      : BinWritterRef(other), BinStreamFile(std::move(other)) {
+    // opened stream has moved as well
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinWritter &operator=(const BinWritter &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
-- 
2.43.0


From 57a680e032b3a9bee14b3f74e3f90099dd8815e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:19 +0000
Subject: [PATCH 64/68] fix: count 87 and 88 macro arguments right

---
 datas/macroLoop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/macroLoop.hpp b/datas/macroLoop.hpp
index 22e6b1f..23a5b99 100644
--- a/datas/macroLoop.hpp
+++ b/datas/macroLoop.hpp
@@ -20,7 +20,7 @@
 #pragma once
 #define VA_NARGS_IMPL(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14,_15,_16,_17,_18,_19,_20,_21,_22,_23,_24,_25,_26,_27,_28,_29,_30,_31,_32,_33,_34,_35,_36,_37,_38,_39,_40,_41,_42,_43,_44,_45,_46,_47,_48,_49,_50,_51,_52,_53,_54,_55,_56,_57,_58,_59,_60,_61,_62,_63,_64,_65,_66,_67,_68,_69,_70,_71,_72,_73,_74,_75,_76,_77,_78,_79,_80,_81,_82,_83,_84,_85,_86,_87,_88,_89, N, ...) N
 #define VA_NARGS_EVAL(x) x
-#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,87,88,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
+#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,88,87,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
 
 #define _LOOPER_CAT1(c1,c2) c1##c2
 #define _LOOPER_CAT2(c1,c2) _LOOPER_CAT1(c1, c2)
-- 
2.43.0


From a24e5c87056c05cb52c7baf1cca9c2247ad44b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:19 +0000
Subject: [PATCH 65/68] fix: evaluate the arguments of the checking macros as
 whole expressions

---
 datas/unit_testing.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/datas/unit_testing.hpp b/datas/unit_testing.hpp
index 708f678..3f4975f 100644
--- a/datas/unit_testing.hpp
+++ b/datas/unit_testing.hpp
@@ -86,40 +86,40 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_CHECK(val)                                                        \
-  if (!val) {                                                                  \
+  if (!(val)) {                                                                \
     _CHECK_FAILED_TMP(#val);                                                   \
     return 1;                                                                  \
   }
 
 #define TEST_EQUAL(val1, val2)                                                 \
-  if (val1 != val2) {                                                          \
+  if ((val1) != (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " != ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT(val1, val2)                                                    \
-  if (val1 <= val2) {                                                          \
+  if ((val1) <= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " <= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_LT(val1, val2)                                                    \
-  if (val1 >= val2) {                                                          \
+  if ((val1) >= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " >= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT_EQ(val1, val2)                                                 \
-  if (val1 < val2) {                                                           \
+  if ((val1) < (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " < ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
 
 #define TEST_LE_EQ(val1, val2)                                                 \
-  if (val1 > val2) {                                                           \
+  if ((val1) > (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " > ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
@@ -131,7 +131,7 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_NOT_EQUAL(val1, val2)                                             \
-  if (val1 == val2) {                                                          \
+  if ((val1) == (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " == ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
-- 
2.43.0


From 1e87cf45931d603a7fde378270ecd6f4f75c39cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:26 +0000
Subject: [PATCH 66/68] fix: end the hash names of XML nodes behind the hash

---
 datas/reflector_xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 2ffaea4..0abc0e4 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -97,7 +97,7 @@ static pugi::xml_node MakeNode(const Reflector &ri, const reflectorStatic *stat,
   else {
     className.resize(15);
     const auto cHash = stat->classHash.raw();
-    snprintf(&className[0], 15, "h:%X", cHash);
+    className.resize(snprintf(&className[0], 15, "h:%X", cHash));
   }
 
   return node.append_child(className.c_str());
@@ -112,7 +112,7 @@ static std::string GetName(const Reflector &ri, const reflectorStatic *stat,
   } else {
     varName.resize(15);
     const auto cHash = cType.valueNameHash.raw();
-    snprintf(&varName[0], 15, "h:%X", cHash);
+    varName.resize(snprintf(&varName[0], 15, "h:%X", cHash));
   }
 
   return varName;
-- 
2.43.0


From 477ba8f58c8e477636b3de4c7b27efa92e02adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:26 +0000
Subject: [PATCH 67/68] fix: write texts into XML nodes as texts, not as markup

---
 datas/reflector_xml.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 0abc0e4..95b29d4 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -150,7 +150,7 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
       }
     } else {
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      cNode.text().set(str.c_str());
     }
   }
 
@@ -259,14 +259,14 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
       default: {
         pugi::xml_node cNode = thisNode.append_child(varName.c_str());
         std::string str = ri.GetReflectedValue(t);
-        cNode.append_buffer(str.c_str(), str.size());
+        cNode.text().set(str.c_str());
         break;
       }
       }
     } else {
       pugi::xml_node cNode = thisNode.append_child(varName.c_str());
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      cNode.text().set(str.c_str());
     }
   }
 
-- 
2.43.0


From be2287922c918017d00160951db902efedb0fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:26 +0000
Subject: [PATCH 68/68] fix: pass over XML nodes that name nothing the class
 has

---
 datas/reflector_xml.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 95b29d4..c148b09 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -336,6 +336,11 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
       }
 
       auto rfInst = ri.GetReflectedSubClass(node.hash, node.index);
+
+      if (!static_cast<ReflectedInstanceFriend &>(rfInst).Refl()) {
+        continue;
+      }
+
       ReflectorPureWrap subRefl(rfInst);
       ReflectorXMLUtil::LoadV2(subRefl, a);
       continue;
@@ -348,6 +353,10 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
     auto refType = rif.GetReflectedType(node.hash);
 
+    if (!refType) {
+      continue;
+    }
+
     auto DoVector = [&] {
       for (auto t : a.attributes()) {
         size_t element = -1;
@@ -466,6 +475,11 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
         for (auto sc : a.children()) {
           auto index = atoll(sc.name() + 2);
           auto rfInst = ri.GetReflectedSubClass(hash, index);
+
+          if (!static_cast<ReflectedInstanceFriend &>(rfInst).Refl()) {
+            continue;
+          }
+
           ReflectorPureWrap subRefl(rfInst);
           ReflectorXMLUtil::Load(subRefl, sc);
         }
-- 
2.43.0

