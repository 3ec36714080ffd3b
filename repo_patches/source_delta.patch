From 85f6c6b29717a78811a30df9e5fa7a5d8e66fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 01/10] fix: do not wrap around in Jwt::verifyTimeConstraint

now + clock_skew and exp + clock_skew were computed modulo 2^64, so a large
clock skew or claim turned a valid JWT into a rejected one and vice versa.
---
 src/jwt.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 2c22eb4..0a03387 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -146,12 +146,14 @@ Status Jwt::parseFromString(const std::string& jwt) {
 }
 
 Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {
+  // The comparisons are written with subtractions so that they can not wrap
+  // around for large values of the claims or of the clock skew.
   // Check Jwt is active (nbf).
-  if (now + clock_skew < nbf_) {
+  if (nbf_ > now && nbf_ - now > clock_skew) {
     return Status::JwtNotYetValid;
   }
   // Check JWT has not expired (exp).
-  if (exp_ && now > exp_ + clock_skew) {
+  if (exp_ && now > exp_ && now - exp_ > clock_skew) {
     return Status::JwtExpired;
   }
   return Status::Ok;
-- 
2.43.0


From 24bde2bd3b0691c9563b07a91559906981a55314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 02/10] fix: Jwt::parseFromString forgets the result of a
 previous parse

Parsing into, or assigning to, a Jwt that had been used before appended to its
audiences and kept those of its claims that the new token does not carry, so
that e.g. 'a = b' did not make a equal to b.
---
 src/jwt.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 0a03387..98f46b2 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -50,8 +50,27 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 Status Jwt::parseFromString(const std::string& jwt) {
   // jwt must have exactly 2 dots with 3 sections.
   jwt_ = jwt;
+  // Forget the result of a previous parse.
+  header_str_.clear();
+  header_str_base64url_.clear();
+  header_pb_.Clear();
+  payload_str_.clear();
+  payload_str_base64url_.clear();
+  payload_pb_.Clear();
+  signature_.clear();
+  alg_.clear();
+  kid_.clear();
+  iss_.clear();
+  audiences_.clear();
+  sub_.clear();
+  iat_ = 0;
+  nbf_ = 0;
+  exp_ = 0;
+  jti_.clear();
+
+  // Split jwt_ rather than jwt, which may refer to one of the fields above.
   std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt, '.', absl::SkipEmpty());
+      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
   if (jwt_split.size() != 3) {
     return Status::JwtBadFormat;
   }
-- 
2.43.0


From 930fe27d1f1efff0e9014d90a5e0e2693f95dc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 03/10] fix: reject a JWT which does not have exactly two dots

Empty sections were skipped before the sections were counted, so that extra
dots anywhere ('..h.p...s.') were accepted.
---
 src/jwt.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwt.cc b/src/jwt.cc
index 98f46b2..6595909 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -68,6 +68,10 @@ Status Jwt::parseFromString(const std::string& jwt) {
   exp_ = 0;
   jti_.clear();
 
+  if (std::count(jwt_.begin(), jwt_.end(), '.') != 2) {
+    return Status::JwtBadFormat;
+  }
+
   // Split jwt_ rather than jwt, which may refer to one of the fields above.
   std::vector<absl::string_view> jwt_split =
       absl::StrSplit(jwt_, '.', absl::SkipEmpty());
-- 
2.43.0


From 77a92181e6945c49db8905fa9182be7b5dd8c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 04/10] fix: only verify with keys of the type the JWT's alg is
 used with

A JWK without "alg" was tried for a JWT of any algorithm: an ECDSA signature
was accepted for a JWT whose header says HS256, and an Ed25519 key in the JWKS
made a valid RS256 JWT fail with JwtEd25519SignatureWrongLength before the RSA
key was tried.
---
 src/verify.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 70eb817..ced11d6 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -226,7 +226,9 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
     }
     kid_alg_matched = true;
 
-    if (jwk->kty_ == "EC") {
+    // A key is only used with the algorithms of its own type, also when its own
+    // alg is not specified.
+    if (jwk->kty_ == "EC" && jwt.alg_.compare(0, 2, "ES") == 0) {
       const EVP_MD* md;
       if (jwt.alg_ == "ES384") {
         md = EVP_sha384();
@@ -266,7 +268,7 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
           return Status::Ok;
         }
       }
-    } else if (jwk->kty_ == "oct") {
+    } else if (jwk->kty_ == "oct" && jwt.alg_.compare(0, 2, "HS") == 0) {
       const EVP_MD* md;
       if (jwt.alg_ == "HS384") {
         md = EVP_sha384();
@@ -281,7 +283,8 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
         // Verification succeeded.
         return Status::Ok;
       }
-    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519") {
+    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519" &&
+               jwt.alg_ == "EdDSA") {
       Status status = verifySignatureEd25519(jwk->okp_key_raw_, jwt.signature_,
                                              signed_data);
       // For verification failures keep going and try the rest of the keys in
-- 
2.43.0


From 4ae8abea3f7127b1d2084cfd2f44000166440a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 05/10] fix: reject ECDSA signatures of the wrong length

RFC 7518 section 3.4: R and S have exactly the length of the curve's field. A
signature with a trailing extra byte, or with R and S padded with zeros, was
accepted.
---
 src/verify.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index ced11d6..82fa1de 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -111,6 +111,12 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
       signed_data == nullptr) {
     return false;
   }
+  // The signature is R || S, each as long as an element of the curve's field.
+  const size_t coordinate_len =
+      (EC_GROUP_get_degree(EC_KEY_get0_group(key)) + 7) / 8;
+  if (signature_len != 2 * coordinate_len) {
+    return false;
+  }
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
-- 
2.43.0


From b2b0d09706dabc40bdedbc79ee90e2f735c77e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 06/10] fix: StructUtils::GetUInt64 reports NaN as out of range

NaN passed both range checks and was then converted to an integer, which is
undefined behaviour.
---
 src/struct_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/struct_utils.cc b/src/struct_utils.cc
index 077a1d5..39db600 100644
--- a/src/struct_utils.cc
+++ b/src/struct_utils.cc
@@ -57,7 +57,7 @@ StructUtils::FindResult StructUtils::GetUInt64(const std::string& name,
   if (result != OK) {
     return result;
   }
-  if (double_value < 0 ||
+  if (!(double_value >= 0) ||
       double_value >=
           static_cast<double>(std::numeric_limits<uint64_t>::max())) {
     return OUT_OF_RANGE;
-- 
2.43.0


From 957837af68bfec35e68c85824c65818ded7b8dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 07/10] fix: no keys are left in a Jwks whose X509 certificates
 failed to parse

A failure on any but the first certificate left the keys of those before it in
a Jwks whose status is not Ok.
---
 src/jwks.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index 2b1acb0..8e2ab09 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -409,6 +409,7 @@ Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
     Jwks::PubkeyPtr key_ptr(new Jwks::Pubkey());
     Status status = extractX509(kid.second.string_value(), key_ptr.get());
     if (status != Status::Ok) {
+      keys.clear();
       return status;
     }
 
-- 
2.43.0


From 738d9d590f4cd9e8aff65d84ecf5bafd3525aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 08/10] fix: an entry pinned without updating the eviction
 order may expire

SimpleLRUCache: such an entry stays on the LRU list, so discardIdle() can
meet it there; the assertion that it cannot aborted the program.
---
 simple_lru_cache/simple_lru_cache_inl.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 99aad30..94a167a 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -921,9 +921,8 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::discardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
+    // Pinned elements on the list (in the age-based mode, or by lookups which
+    // do not update the eviction order) are pushed out of the main table too.
     remove(e->key);
     e = prev;
   }
-- 
2.43.0


From 65bcbd769c35625840335eabf3a82ba1de08e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 09/10] fix: nested lookups of one entry with different
 eviction order options

SimpleLRUCache: a release which linked an entry that was still on the LRU
list corrupted the list, and an entry whose last release did not update the
order was left off it for good and could neither be evicted nor expire.
---
 simple_lru_cache/simple_lru_cache_inl.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 94a167a..0551531 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -681,10 +681,11 @@ Value* SimpleLRUCacheBase<Key, Value, MapType, EQ>::lookupWithOptions(
     Elem* e = iter->second;
     if (e->pin == 0) {
       pinned_units_ += e->units;
-      // We are pinning this entry, take it off the LRU list if we are in LRU
-      // mode. In strict age-based mode entries stay on the list while pinned.
-      if (lru_ && options.update_eviction_order()) e->unlink();
     }
+    // We are pinning this entry, take it off the LRU list if we are in LRU
+    // mode. In strict age-based mode entries stay on the list while pinned.
+    // It may be pinned already, by lookups that left it on the list.
+    if (lru_ && options.update_eviction_order()) e->unlink();
     e->pin++;
     return e->value;
   }
@@ -733,13 +734,15 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::releaseWithOptions(
     Elem* e = iter->second;
     assert(e->value == value);
     assert(e->pin > 0);
-    if (lru_ && options.update_eviction_order()) {
+    e->pin--;
+    // Whichever pin goes last, an entry taken off the LRU list returns to it.
+    const bool relink = lru_ && e->pin == 0 && !e->isLinked();
+    if (relink || (lru_ && options.update_eviction_order())) {
       e->last_use_ = SimpleCycleTimer::now();
     }
-    e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->link(&head_);
+      if (relink) e->link(&head_);
       pinned_units_ -= e->units;
       if (isOverfullInternal()) {
         // This element is no longer needed, and we are full. So kick it out.
-- 
2.43.0


From 8dcf89dc0709d97273481e1a971b60ea4bac715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 10/10] fix: ageOfLRUItemInMicroseconds overflows for an item
 older than 106 days

---
 simple_lru_cache/simple_lru_cache_inl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 0551531..35b79f0 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -965,8 +965,12 @@ template <class Key, class Value, class MapType, class EQ>
 int64_t SimpleLRUCacheBase<Key, Value, MapType,
                            EQ>::ageOfLRUItemInMicroseconds() const {
   if (head_.prev == &head_) return 0;
-  return kSecToUsec * (SimpleCycleTimer::now() - head_.prev->last_use_) /
-         SimpleCycleTimer::frequency();
+  const int64_t cycles = SimpleCycleTimer::now() - head_.prev->last_use_;
+  const int64_t frequency = SimpleCycleTimer::frequency();
+  // Whole seconds apart from the rest: `kSecToUsec * cycles` overflows after
+  // 106 days.
+  return kSecToUsec * (cycles / frequency) +
+         kSecToUsec * (cycles % frequency) / frequency;
 }
 
 template <class Key, class Value, class MapType, class EQ>
-- 
2.43.0

