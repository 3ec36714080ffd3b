// C17: the same cases under AddressSanitizer and UBSan; the crypto library is not instrumented, so the buffers it is given are checked here.
#pragma once
#include "common.h"
#include <dlfcn.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
static inline void chk(const void* p, size_t n, const char* fn) {
  if (!n) return;
  if (__asan_region_is_poisoned((void*)p, n)) violation(string(fn) + " is given a buffer shorter than the " + std::to_string(n) + " bytes it reads");
}
#define REAL(f) static auto real = (decltype(&f))dlsym(RTLD_NEXT, #f)
extern "C" {
#include "openssl/bio.h"
#include "openssl/bn.h"
#include "openssl/curve25519.h"
#include "openssl/digest.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/mem.h"
#include "openssl/ecdsa.h"
int ED25519_verify(const uint8_t* m, size_t n, const uint8_t s[64], const uint8_t k[32]) { REAL(ED25519_verify); chk(m, n, "ED25519_verify"); chk(s, 64, "ED25519_verify"); chk(k, 32, "ED25519_verify"); return real(m, n, s, k); }
BIGNUM* BN_bin2bn(const uint8_t* in, size_t n, BIGNUM* r) { REAL(BN_bin2bn); chk(in, n, "BN_bin2bn"); return real(in, n, r); }
int EVP_DigestVerifyUpdate(EVP_MD_CTX* c, const void* d, size_t n) { REAL(EVP_DigestVerifyUpdate); chk(d, n, "EVP_DigestVerifyUpdate"); return real(c, d, n); }
int EVP_DigestVerifyFinal(EVP_MD_CTX* c, const uint8_t* d, size_t n) { REAL(EVP_DigestVerifyFinal); chk(d, n, "EVP_DigestVerifyFinal"); return real(c, d, n); }
int EVP_DigestVerify(EVP_MD_CTX* c, const uint8_t* s, size_t sn, const uint8_t* d, size_t n) { REAL(EVP_DigestVerify); chk(d, n, "EVP_DigestVerify"); chk(s, sn, "EVP_DigestVerify"); return real(c, s, sn, d, n); }
int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) { REAL(EVP_DigestUpdate); chk(d, n, "EVP_DigestUpdate"); return real(c, d, n); }
int EVP_DigestFinal(EVP_MD_CTX* c, uint8_t* d, unsigned* n) { REAL(EVP_DigestFinal); chk(d, EVP_MD_CTX_size(c), "EVP_DigestFinal"); return real(c, d, n); }
uint8_t* HMAC(const EVP_MD* m, const void* k, size_t kn, const uint8_t* d, size_t n, uint8_t* o, unsigned* on) { REAL(HMAC); chk(k, kn, "HMAC"); chk(d, n, "HMAC"); chk(o, EVP_MD_size(m), "HMAC"); return real(m, k, kn, d, n, o, on); }
int CRYPTO_memcmp(const void* a, const void* b, size_t n) { REAL(CRYPTO_memcmp); chk(a, n, "CRYPTO_memcmp"); chk(b, n, "CRYPTO_memcmp"); return real(a, b, n); }
int ECDSA_do_verify(const uint8_t* d, size_t n, const ECDSA_SIG* s, const EC_KEY* k) { REAL(ECDSA_do_verify); chk(d, n, "ECDSA_do_verify"); return real(d, n, s, k); }
BIO* BIO_new_mem_buf(const void* b, ossl_ssize_t n) { REAL(BIO_new_mem_buf); chk(b, n, "BIO_new_mem_buf"); return real(b, n); }
int BIO_write(BIO* b, const void* d, int n) { REAL(BIO_write); chk(d, n, "BIO_write"); return real(b, d, n); }
}
